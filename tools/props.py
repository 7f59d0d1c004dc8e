#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json.  A property is claimed when
contracts/pNN.py exists and it is not listed in NOT_APPLICABLE."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []
ALL_IN = 'for all input values and every number of photons'


def P(id, title, statement, files, mech, over=('inputs',), q=None, why=None, note=None):
    PROPS.append(dict(
        id=id, title=title, statement=statement,
        quantifier={'over': list(over), 'text': q or ALL_IN},
        why_tests_cant=why or 'The tests sample a handful of positions, angles and seeds; the statement quantifies over all real-valued inputs and all array lengths.',
        anchors={'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]},
        note=note))


P('P01', 'Homogeneous coordinates, Pluecker lines and angle arithmetic are exact geometry',
  'Converting between Euclidean and homogeneous coordinates loses nothing and refuses mixtures of points and directions, and lines and planes in Pluecker form meet exactly where the Euclidean objects meet. Distances are non-negative and do not depend on the homogeneous scale. Interval tests and differences of angles do not depend on which multiple of a full turn an angle is given in.',
  ['marxs/math/utils.py', 'marxs/math/pluecker.py'],
  [('conversions', 'e2h/h2e/distance_point_point'), ('lines and planes', 'dir_point2line/dir_point2plane/intersect_line_plane/point_dir2plane'), ('angles', 'anglediff/angle_between')],
  q='all points, directions, planes and angles')

P('P02', 'Rotations are proper, placements are translation x rotation x zoom',
  'Every rotation matrix built from an axis and angle or from a normal and a fixed vector is orthogonal with determinant +1, follows the right-hand rule and maps the canonical axes where its documentation says. An element placed with position, orientation and zoom keywords gets exactly translation times rotation times zoom as its matrix, a full matrix given directly is used as is, and combining both or passing a wrong shape is refused. The labels of an element (centre and edge vectors) are the columns of that matrix.',
  ['marxs/math/rotations.py', 'marxs/math/geometry.py', 'marxs/optics/base.py'],
  [('rotations', 'axangle2mat/ex2todirection'), ('placement', 'Geometry.__init__')], q='all axes, angles, positions, orientations and positive zooms')

P('P03', 'A ray hits a flat element iff it meets the rectangle forward of its start',
  'A photon intersects a finite flat element if and only if the point where its ray meets the plane of the element lies forward of the photon and inside the element\'s rectangle. The reported intersection point lies on the ray and in the rectangle, the reported local coordinates name the same point, and photons that miss get NaN.',
  ['marxs/math/geometry.py', 'marxs/math/pluecker.py'], [('plane intersection', 'FinitePlane.intersect')],
  q='all placements (position, orientation, positive zoom) and all rays')

P('P04', 'A ray hits a tube at the nearest valid wall point inside height and angle limits',
  'A photon intersects a (partial) cylinder if and only if one of the points where its ray meets the tube lies forward of its start, inside the height of the tube and inside the angular limits; the nearest such point is reported in global coordinates and as angle and height. Photons that miss get NaN, and angular limits given for one tube do not affect any other.',
  ['marxs/math/geometry.py'], [('tube intersection', 'Cylinder.intersect'), ('surface', 'Cylinder.parametric_surface')],
  q='all placements, angular limits and rays not parallel to the tube axis')

P('P05', 'Local coordinate systems of element surfaces are orthonormal and right-handed',
  'At every point of a flat or cylindrical element surface, the local normal and the two in-surface vectors are mutually perpendicular unit vectors forming a right-handed system, with the normal perpendicular to the actual surface there. They follow the element when it is moved or rotated.',
  ['marxs/math/geometry.py'], [('local frames', 'get_local_euklid_bases')], q='all placements and all surface points')

P('P06', 'Polarization stays perpendicular to the ray and keeps its length',
  'Parallel transport of polarization along a change of direction is an isometry that keeps a polarization vector perpendicular to the new direction, leaves it unchanged when the direction is unchanged, and composes the way the geometry demands. Conversions between polarization angle and vector and between polarization conventions always give unit vectors perpendicular to the direction.',
  ['marxs/math/polarization.py'], [('transport', 'parallel_transport/paralleltransport_matrix'), ('vectors', 'polarization_vectors'), ('reflection matrix', 'Q_reflection')],
  q='all pairs of unit directions (not anti-parallel) and all perpendicular polarization vectors')

P('P07', 'Photon probabilities are only multiplied and stay within [0, 1]',
  'An optical element changes the probability of a photon only by multiplying it with that photon\'s own factor, never for photons that miss, and a factor outside [0, 1] is refused with an error instead of being applied. Filters, efficiencies and baffles therefore never increase a probability and never move it from one photon to another.',
  ['marxs/optics/base.py', 'marxs/optics/filter.py', 'marxs/optics/baffles.py', 'marxs/optics/multiLayerMirror.py'],
  [('multiply with check', 'OpticalElement._assign_col_value'), ('filters', 'EnergyFilter/GlobalEnergyFilter/Baffle')],
  q='all photon tables, all intersection patterns and all user-supplied efficiency functions')

P('P08', 'Optical elements leave photons that miss untouched and keep the table shape',
  'Passing a photon table through an optical element keeps the number and order of photons, leaves every existing column of photons that do not intersect the element unchanged, and updates position and direction of exactly those that do. When any photon hits, the output columns and the identifier column are added once, hold the fill value for photons that missed, and hold the local coordinates and the identifier of the element for those that hit.',
  ['marxs/optics/base.py', 'marxs/base/base.py'], [('processing', 'OpticalElement.__call__/add_output_cols'), ('flat elements', 'FlatOpticalElement.process_photons')],
  q='all photon tables, placements and intersection patterns')

P('P09', 'Diffraction obeys the grating equation',
  'For a photon diffracted by a flat grating, the component of the direction along the grooves is unchanged, the dispersion component changes by order times wavelength over local grating period with a documented sign, and the new direction has unit length and stays on the proper side of the grating. Polarization is transported with the ray, and order, groove angle and probability columns are those actually used.',
  ['marxs/optics/grating.py', 'marxs/missions/mitsnl/catgrating.py'], [('grating equation', 'FlatGrating.diffract_photons')],
  q='all placements, groove angles, periods (constant or position dependent), energies, orders and incoming directions')

P('P10', 'Diffraction orders are drawn from exactly the efficiency given',
  'Order selectors return only orders from their list, choose order i exactly when the random number falls into the i-th slice of the cumulative efficiency, and report the total efficiency as probability, between 0 and 1. Energies and angles select the efficiency of that very photon, and inconsistent tables (sums above one, mismatched lengths) are refused.',
  ['marxs/optics/grating.py', 'marxs/missions/mitsnl/catgrating.py'], [('selection', 'OrderSelector/EfficiencyFile/InterpolateEfficiencyTable')],
  q='all order lists, efficiency tables, energies and random draws')

P('P11', 'Perfect lenses image to a point and mirrors reflect specularly',
  'A perfect lens sends every ray parallel to a given direction through one and the same point in its focal plane (the one the central ray hits), and photons parallel to its axis through the focal point. A reflecting element reverses exactly the normal component of the direction and keeps speed, and both keep polarization perpendicular to the direction.',
  ['marxs/optics/mirror.py', 'marxs/optics/multiLayerMirror.py'], [('lens', 'ThinLens/PerfectLens'), ('mirror', 'FlatBrewsterMirror/MultiLayerMirror')],
  q='all placements, focal lengths and rays')

P('P12', 'Scattering rotates each ray by exactly the drawn angles',
  'Scatter elements turn each intersecting photon by exactly the angles drawn for it, measured against the plane of incidence or around the ray, record those angles, keep directions unit length and polarization perpendicular, and with zero width leave the ray unchanged. Photons that miss keep their direction.',
  ['marxs/optics/scatter.py'], [('scatter', 'RadialMirrorScatter/RandomGaussianScatter')], q='all rays, centres, random draws and widths')

P('P13', 'Detector pixels are an affine image of the position on the detector',
  'The pixel coordinates of a photon on a flat or circular detector are its position along the two detector axes divided by the pixel size plus a constant offset, such that the detector centre lies at the centre pixel and pixel number and physical coordinates agree at both edges. Photons that miss get NaN pixels, and photons keep their direction.',
  ['marxs/optics/detector.py'], [('pixels', 'FlatDetector/CircularDetector')], q='all placements, pixel sizes and photon positions')

P('P14', 'Aperture photons start on the aperture with area-proportional weights',
  'An aperture places photons uniformly inside its own open area: every generated position lies on the aperture, positions are an area-preserving image of the random numbers, and the area and the projection factor applied to the probability are those of the shape. An aperture made of several parts assigns photons to parts in proportion to their areas and uses every photon once.',
  ['marxs/optics/aperture.py'], [('apertures', 'RectangleAperture/CircleAperture/MultiAperture')], q='all placements, radii, angular ranges and random draws')

P('P15', 'Photon sources generate the time, energy and polarization asked for',
  'Photon lists contain exactly the photons asked for: times lie in the exposure interval in order, follow a constant rate as rate times exposure or the given user function, energies come from the number, array, table or function given, and polarization angles come from the specification given. Probability starts at one, input of the wrong length is refused, and sources with an extent put photons inside the shape asked for on the sky or in the lab.',
  ['marxs/source/basesources.py'], [('times', 'Source.generate_times'), ('energies', 'Source.generate_energies'), ('polarization', 'Source.generate_polarization')],
  q='all fluxes, exposure times, spectra and polarization specifications')

P('P16', 'Sky pointing maps source coordinates to ray directions as an isometry',
  'A telescope pointing turns sky coordinates into ray directions by one fixed rotation: the pointing target maps onto the optical axis, angular distances between sources are preserved, roll turns the image about the axis in the documented sense, and directions are unit vectors pointing from the source. Polarization vectors are perpendicular to the direction and encode the angle from celestial North through East.',
  ['marxs/source/pointing.py', 'marxs/math/utils.py'], [('pointing', 'FixedPointing/PointingModel')], q='all pointings, rolls, sky positions and polarization angles')

P('P17', 'Random numbers from a tabulated distribution follow that distribution',
  'Sampling from a tabulated distribution inverts its cumulative distribution exactly: the returned value lies in the bin that the uniform random number selects, at the position inside the bin that the interpolation demands, and bins of zero probability are never returned. Malformed tables are refused.',
  ['marxs/math/random.py'], [('inverse CDF', 'RandomArbitraryPdf')], q='all tables with non-negative weights and all random draws')

P('P18', 'Sequences apply their elements in order with all hooks',
  'Running a photon list through a sequence is the composition, in list order, of preprocessing hooks, element, and postprocessing hooks, each applied exactly once per element, and nested sequences behave like their flattened list. Hooks that record positions see the table exactly after each step, and elements of the wrong kind are refused when the sequence is built.',
  ['marxs/simulator/simulator.py'], [('sequence', 'Sequence/KeepCol')], over=('programs', 'inputs'), q='all element lists, nestings and hooks')

P('P19', 'Parallel assemblies place each part relative to the whole',
  'In an assembly of parallel elements, part i ends up at the assembly placement times the global element transformation times its nominal placement times its individual uncertainty, whatever order those are set in, and re-centering an assembly changes the split but not any element\'s final placement. Part identifiers are the ones configured and every photon is processed by the parts it hits.',
  ['marxs/simulator/simulator.py', 'marxs/optics/base.py'], [('assembly', 'Parallel/ParallelCalculated')], over=('configurations', 'histories'), q='all placements, numbers of parts, uncertainties and orders of setting them')

P('P20', 'Searching an instrument by type finds exactly the matching elements',
  'Searching a nested instrument for elements of a class returns each matching element exactly once, wherever it is nested, respects the choice between exact and subclass matches and the option to stop at the first match in each branch, and returns nothing else.',
  ['marxs/simulator/simulator.py', 'marxs/design/tolerancing.py'], [('search', 'Sequence.elements_of_class/Parallel.elements_of_class')], over=('configurations',), q='all nestings of sequences and assemblies')

P('P21', 'Rowland torus: implicit form, parametric form and normals agree',
  'Points produced by the parametric form of a Rowland torus satisfy its implicit equation, converting such a point back gives the same parameters, the normal is perpendicular to the surface there, and all three follow a rotation or shift of the torus. Points found by solving along a line lie on both line and torus.',
  ['marxs/design/rowland.py'], [('torus', 'RowlandTorus')], q='all torus radii, positions, orientations and surface parameters')

P('P22', 'Gratings placed on a Rowland torus lie on it and face the right way',
  'Every facet placed by a grating assembly has its centre on the torus (or the documented offset from it), its normal along the line to the reference point required by the design, its groove direction perpendicular to the normal, and lies inside the requested radial or rectangular region with at least the spacing asked for. Facets distributed along an arc are spaced and centred as documented.',
  ['marxs/design/rowland.py', 'marxs/design/bendgratings.py'], [('placement', 'GratingArrayStructure/RectangularGrid/CircularMeshGrid')], over=('configurations',), q='all torus sizes, facet sizes and region limits')

P('P23', 'Tolerancing moves change exactly what they say and can be undone',
  'Applying a misalignment moves or rotates exactly the chosen degree of freedom of exactly the chosen elements by exactly the amount given about the documented pivot, and applying zero restores the nominal state whatever was applied before. Parameter scans touch every element and every scan value once, in order, and leave the instrument nominal at the end.',
  ['marxs/design/tolerancing.py', 'marxs/design/uncertainties.py'], [('moves', 'wiggle/moveglobal/moveindividual/...'), ('scan', 'run_tolerances')], over=('histories', 'inputs'), q='all misalignment values, element trees and sequences of moves')

P('P24', 'Analysis results are the weighted statistics of the photons they claim to be',
  'Effective areas, detected fractions, resolving powers and weighted means returned by the analysis functions equal their defining sums over exactly the photons they are for (of the order, with finite coordinates and non-zero probability where the definition says so), do not change the photons or objects they analyse, and report no data as zero or NaN instead of a number. Projections onto a plane and tables of facets give coordinates in that plane.',
  ['marxs/analysis/gratings.py', 'marxs/analysis/analysis.py', 'marxs/analysis/coords.py'], [('analysis', 'resolvingpower_from_photonlist/effectivearea_from_photonlist/detected_fraction')],
  q='all photon tables, including empty selections and NaN positions')

P('P25', 'Response files keep the physics when compressed, written and read',
  'Compressing a redistribution matrix to its stored group form and expanding it again gives every element above the threshold in its own channel and nothing else, whatever pattern of zeros each row has, whatever channel number counting starts from, and whether groups are stored with variable or fixed length or went through a file. The row found for an energy (or wavelength) is the one whose range contains it, the channel bounds made from a list of edges are numbered with increasing energy and leave no gap or overlap, and a matrix made from a model or a table of widths holds each value in the row and channel for the wavelengths it was calculated for. Tables with keywords in place of constant columns return what was assigned last.',
  ['marxs/reduction/ogip.py'], [('RMF', 'RMF.arr_to_rmf_matrix_row/rmf/full_rmf/row/variable_length_to_fixed_length/ebounds_from_edges/make_rmf/from_Gauss_sigma/write'), ('ColOrKeyTable', 'ColOrKeyTable.__getitem__/__setitem__')], over=('inputs', 'histories'), q='all response values, thresholds, first-channel numbers, edges and widths')

P('P26', 'Order sorting windows select the photons that belong to the order',
  'The order-sorting factor for a true order in the window of an extraction order is the part of the energy response of the detector that falls into that window (computed for the energies of the extraction order at the same place on the detector), lies between 0 and 1, and is zero for orders on the other side and for the zeroth order; windows asked for as a range and as widths agree. Applying order sorting to an effective area multiplies the area without order sorting by this factor, also if order sorting had been applied to the file before, and labels the result with both orders; processing many orders handles exactly the existing files of the same side.',
  ['marxs/reduction/osip.py', 'marxs/optics/detector.py'], [('order sorting', 'OSIPBase.osip_tab/osip_range/osip_factor/apply_osip/apply_osip_all and subclasses'), ('energy response', 'CCDRedistNormal.cdf/interval')], q='all energies, orders, window sizes and resolutions')

P('P27', 'Geometry for display shows the real shape and colours',
  'Triangulations produced for display use every surface point with indices inside the table, fill exactly the space between the inner and the outer line, keep the corners of every triangle when meshes are joined, and follow the placement, size and wedge of the element. Colour conversion maps each colour channel independently and gives back the numbers that went in. Display settings given by the user come first, then those of the element\'s geometry, which they never change; the first shape of the list that can be plotted is plotted.',
  ['marxs/visualization/utils.py', 'marxs/math/geometry.py'], [('display helpers', 'combine_disjoint_triangulations/plane_with_hole/halfbox_corners/color_tuple_to_hex/get_color/DisplayDict/plot_object_general'), ('shapes', 'xyz_circle/xyz_square/RectangleHole.triangulate/CircularHole.triangulate')], q='all mesh sizes, placements and colours')

P('P28', 'Telescope dither follows its documented pattern',
  'At every time the dithered pointing differs from the nominal pointing by exactly the sinusoids requested in each axis (with the roll of that very time), photons are turned into the frame of the telescope at their own time, and the aspect solution written for a time is the pointing used for photons of that time.',
  ['marxs/missions/chandra/dither.py'], [('dither', 'LissajousDither.dither/pointing/photons_dir/write_asol')], over=('inputs', 'schedules'), q='all amplitudes, periods, phases and photon times')

P('P29', 'Chandra event coordinates and headers describe the events',
  'Pixel, tiled, focal-plane and sky coordinates of an event on an ACIS chip are the documented functions of the place where the photon hit (first pixel is 1, tiled coordinates laid out like the chips, angles as seen from the focal length, turned by the roll), only photons that hit get values, and together with the world coordinates in the header they give the direction the photon came from. Each chip sits between its measured corners for every aim point and offset. Header keywords that belong to a column carry the number of that column, none is left over from an earlier order, keywords already set are kept and required ones filled in, start and stop times are one exposure apart, and sorting or writing an event list keeps every value.',
  ['marxs/missions/chandra/det_acis.py', 'marxs/missions/chandra/fitsheaders.py', 'marxs/missions/chandra/chandra_global.py', 'marxs/missions/chandra/data.py'], [('coordinates', 'ACISChip.specific_process_photons/chip2tdet/ACIS.calculate_elempos'), ('headers', 'add_evt_column_header/complete_header/sort_columns/Chandra.write_evt')], over=('inputs', 'histories'), q='all photon positions, rolls, aim points, offsets and column orders')

NOT_APPLICABLE = {}
NOTE = {}
exec(open(os.path.join(ROOT, 'tools', 'notes.py')).read() if os.path.exists(os.path.join(ROOT, 'tools', 'notes.py')) else '')


def unbounded(i):
    src = open(os.path.join(ROOT, 'contracts', i.lower() + '.py')).read()
    return any('sizes=' not in l and 'bounded=' not in l for l in src.split('\n') if l.startswith('@contract('))


def main():
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for p in PROPS:
            q = {k: v for k, v in p.items() if k != 'note'}
            assert len(q['title']) <= 80, (q['id'], len(q['title']))
            f.write(json.dumps(q) + '\n')
    checks, na = [], []
    for p in PROPS:
        i = p['id']
        if i in NOT_APPLICABLE or not os.path.exists(os.path.join(ROOT, 'contracts', i.lower() + '.py')):
            na.append({'property': i, 'reason': NOT_APPLICABLE.get(i, 'no contract within reach has been written for it yet')})
            continue
        checks.append({
            'property': i,
            'quick_cmd': '/opt/venv/bin/python -m marxsvc.run %s --tier quick' % i,
            'thorough_cmd': '/opt/venv/bin/python -m marxsvc.run %s --tier thorough' % i,
            'technique': 'contract-based deductive verification: symbolic execution of the real functions, obligations discharged by polynomial normal forms, z3 and cvc5',
            'level': 'proof' if unbounded(i) else 'other',
            'level_note': ('Every obligation of every contract is discharged for all inputs and all array lengths, over mathematical reals; contracts marked "sizes" in the evidence are discharged for all values but only for the stated numbers of elements. ' if unbounded(i) else
                           'Every obligation is discharged for all values, over mathematical reals, but only for the stated numbers of elements in each list (size_bounded in the evidence); not counted as proved for all sizes. ') + NOTE.get(i, '') +
                          ' Assumes the contracts of numpy/astropy operations implemented in the engine; rounding is out of scope; contracts marked bounded in the evidence are not counted as proved.'})
    json.dump({'version': 1, 'setup_cmd': '/opt/venv/bin/python -m marxsvc.run --selftest', 'checks': checks, 'not_applicable': na,
               'hooks': {'guard': 'MARXSVC_REPO', 'enable': 'no hooks are needed: the checks import /repo as it is; the variable only names another tree to check', 'source_commits': []}},
              open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)


main()
