#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the one table below (run after editing it)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = 'src/lib/pytornado/'
VLM, CPP = SRC + 'aero/vlm.py', SRC + 'aero/'
AC, ST, SE = SRC + 'objects/aircraft.py', SRC + 'objects/state.py', SRC + 'objects/settings.py'
RUN = SRC + 'stdfun/run.py'

TESTS = ('The shipped tests only check that a handful of fixed examples run to completion; none compares a computed '
         'number with an expected one')

P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, technique=technique, note=note))


prop('C01', 'No net flow crosses any panel after an analysis',
     'For every analysed flight state, the flow at the control point of every panel (free stream, rotation and the '
     'velocity induced by all horseshoe vortices at their solved strength) has no component along that panel\'s normal.',
     ['inputs'], 'all aircraft geometries (wings, segments, symmetries, controls), panel counts and flight states',
     TESTS + '; tangency couples every part of the pipeline for every geometry and state.',
     [VLM, CPP + 'c_downwash.cpp', CPP + 'c_boundary.cpp'],
     [('assembly of the equation system', VLM + ':calc_downwash, calc_boundary'), ('dense solver', VLM + ':solver'),
      ('standard analysis', RUN + ':standard_run')],
     'property-based testing: generated projects run end to end, residual of an independent vortex-lattice model as oracle',
     'residual tolerance scaled with the conditioning of the system; singular systems are counted as outside the domain')
prop('C02', 'Influence matrix is the Biot-Savart velocity of each horseshoe vortex',
     'Every entry of the influence matrix is the normal velocity induced at one control point by one horseshoe vortex '
     'of unit strength, as given by the Biot-Savart law for its bound and trailing segments.',
     ['inputs'], 'all lattices, including vortices seen from points nearly on their axes, and all values of the smoothing parameter',
     TESTS + '; a wrong sign, a swapped vertex or a missed panel only shows in numbers nobody checks.',
     [CPP + 'c_downwash.cpp', VLM], [('induced velocity kernel', CPP + 'c_downwash.cpp'), ('wrapper', VLM + ':calc_downwash')],
     'property-based testing: generated lattices, differential against an independent numpy Biot-Savart model with a rounding bound',
     'elementwise, with a rounding-error bound; "physical" compares against the unregularised law where smoothing is negligible')
prop('C03', 'Onset flow is free stream plus rotation about the centre of gravity',
     'The right-hand side seen by every panel is minus the normal component of the free-stream velocity plus the velocity '
     'due to the roll, pitch and yaw rates of the aircraft about its centre of gravity ("gcenter" in the aircraft file).',
     ['inputs'], 'all panel positions and normals, flow angles in [-90, 90] degrees, airspeeds, rates and reference points',
     TESTS + '; angular rates are zero in all of them.',
     [CPP + 'c_boundary.cpp', VLM, ST],
     [('boundary kernel', CPP + 'c_boundary.cpp'), ('free-stream vector', ST + ':free_stream_velocity_vector')],
     'property-based testing: generated lattices and flight states against an independent onset-flow model',
     'elementwise against a vectorised model, relative tolerance 1e-9 of the local speed scale')
prop('C04', 'The lattice tiles every lifting surface exactly once',
     'The panels of each wing and its mirror image cover it exactly: no gaps, no overlaps, shared corners where panels meet, '
     'the requested number of panels chordwise and spanwise, and every panel accounted for in the book-keeping.',
     ['inputs', 'configurations'], 'all wings, segments, controls, symmetries, explicit or automatic panel counts',
     TESTS + '; gaps and overlaps need unusual combinations of segments and controls.',
     [VLM, AC, CPP + 'c_lattice.cpp'],
     [('pre-panelling and subdivision', VLM + ':pre_panelling'), ('point generation', VLM + ':gen_lattice'), ('subdivisions', AC + ':add_subdivision')],
     'property-based testing: generated aircraft, watertightness/area/count invariants over the panel set',
     'planar quadrilaterals compared by area and shared corners; twisted ones by corner coincidence and counts')
prop('C05', 'Panel singularities, control points and normals follow from the corners',
     'On every panel the bound vortex lies on the quarter-chord line, the control point at mid-span on the three-quarter-chord line, '
     'and the trailing vortices leave the ends of the bound vortex far downstream along the free stream. Before deflections and camber the normals '
     'are perpendicular to the panel at the control point, they are always of unit length, and areas and aspect ratios are those of the quadrilaterals.',
     ['inputs'], 'all panels of all generated lattices (swept, twisted, tapered, mirrored)',
     TESTS + '; the placement of singularities is never looked at.',
     [CPP + 'c_lattice.cpp', VLM], [('lattice kernel', CPP + 'c_lattice.cpp')],
     'property-based testing: generated lattices, geometric invariants recomputed from panel corners',
     'elementwise tolerance 1e-9 of the aircraft size')
prop('C06', 'Control surfaces are meshed exactly where they are defined',
     'Panels belong to a control surface exactly if they lie inside the region between its inner and outer edges and its relative '
     'chordwise limits, over one or several segments, and its hinge line connects the points given for it.',
     ['inputs', 'configurations'], 'all flaps and slats on one or several segments, both sides of a wing, with unequal limits',
     TESTS + '; only one rectangular flap on one segment occurs in tests.',
     [VLM, AC], [('control subdivision', AC + ':add_subdivision_for_control'), ('interpolation of limits', AC + ':xsi_interpol, ' + VLM + ':pre_panelling')],
     'property-based testing: generated control surfaces, footprint recomputed from the aircraft file as oracle',
     'footprint compared per strip in relative and absolute coordinates')
prop('C07', 'A symmetry flag is equivalent to modelling the mirror image',
     'A wing with a symmetry flag gives the same panels and loads as the wing plus its explicitly modelled mirror image, '
     'with each side\'s control deflection.',
     ['inputs'], 'all three symmetry planes, twisted/swept/cambered wings, controls with different deflections per side',
     TESTS + '; tests only use one plane and never compare sides.',
     [AC, VLM], [('mirroring', AC + ':mirror_point, mirror_vertices, order_mirrored_vertex_points')],
     'property-based testing: metamorphic (symmetry flag versus explicit image), panels matched one to one',
     'cambered comparisons use 2% because the third-party camber slopes are noisy; geometry is exact')
prop('C08', 'Reflecting the whole experiment reflects the loads',
     'Mirroring aircraft and flight state across the symmetry plane reverses side force, rolling and yawing moment and keeps the rest; '
     'a symmetric aircraft in symmetric flight has no side force, rolling or yawing moment.',
     ['inputs'], 'all aircraft and flight states',
     TESTS + '; a relation between two analyses is beyond single-run smoke tests.',
     [VLM, AC, ST, CPP + 'c_results.cpp'], [('whole pipeline', RUN + ':standard_run')],
     'property-based testing: metamorphic relation between two complete analyses',
     'tolerance scaled with the conditioning of the system')
prop('C09', 'Deflections and camber turn panel normals by the right angle',
     'A control deflected by an angle turns the normals of exactly its panels by that angle about its hinge axis, trailing edge down for '
     'positive deflection on either side; camber turns normals by the local slope of the camber line, blended linearly between airfoils.',
     ['inputs'], 'all controls, deflections on both sides, hinge lines, airfoils (NACA and files)',
     TESTS + '; signs and angles of turned normals are never compared.',
     [VLM, AC], [('normal rotations', VLM + ':gen_lattice'), ('hinge axes', AC + ':abs_hinge_axis'), ('camber', AC + ':abs_camber_line_rot_axis')],
     'property-based testing: generated controls and airfoils, differential against an independent rotation model',
     'camber slopes of the third-party airfoil library are taken as given (its values are an input of the property)')
prop('C10', 'Panel loads, totals and moments are Kutta-Joukowski loads',
     'The force on every panel is density times circulation times the cross product of the local flow velocity and the bound vortex; totals are '
     'their sums and moments their sums about the reference centre given in the aircraft file ("rcenter"), so moving that point changes moments by the force times the arm.',
     ['inputs'], 'all solved lattices and flight states', TESTS + '; loads are the product of the tool and unchecked.',
     [CPP + 'c_results.cpp', VLM], [('result kernel', CPP + 'c_results.cpp'), ('summation', VLM + ':calc_results')],
     'property-based testing: differential against an independent Kutta-Joukowski model on the solved circulation',
     'relative to the largest panel load; induced velocity recomputed independently')
prop('C11', 'Coefficients and wind-axis loads follow the documented normalisation',
     'Drag, side force and lift are the body-axis force resolved along the wind axes, and every coefficient is its load divided by dynamic '
     'pressure, reference area and, for moments, the documented reference length.',
     ['inputs'], 'all reference values, flow angles and loads', TESTS + '; coefficients are never compared.',
     [VLM], [('coefficients', VLM + ':calc_results')],
     'property-based testing: generated analyses against the formulas of the theory pages', 'exact formulas, 1e-9')
prop('C12', 'Similarity laws: speed, density, size, place and attitude',
     'Loads scale with density and the square of speed, and with size squared (moments: cubed); moving the whole aircraft leaves all coefficients as '
     'they are, and turning aircraft and flow together turns the loads.',
     ['inputs'], 'all aircraft, flight states, scale factors, translations and rotations',
     TESTS + '; relations between analyses are never tested.',
     [VLM, AC, CPP + 'c_downwash.cpp', CPP + 'c_results.cpp'], [('whole pipeline', RUN + ':standard_run')],
     'property-based testing: metamorphic relations between complete analyses', 'tolerance scaled with conditioning; the fixed wake length is accounted for')
prop('C13', 'Circulation superposes over motions',
     'At a fixed geometry the circulation is linear in the onset flow: the circulation of a combined motion is the sum of its parts, '
     'density does not matter, and no motion means no load.',
     ['inputs'], 'all aircraft and pairs of motions (translation and rotation)', TESTS + '.',
     [VLM, CPP + 'c_boundary.cpp'], [('linear system', VLM + ':calc_boundary, solver')],
     'property-based testing: metamorphic superposition of generated motions', 'tolerance scaled with conditioning')
prop('C14', 'Flight states mean what the state file says, or are refused',
     'Every documented combination of airspeed, Mach number, altitude and density gives the airspeed and density of the standard atmosphere, '
     'state by state; ambiguous or incomplete combinations, lists of different length and angles outside [-90, 90] degrees are refused.',
     ['inputs'], 'all state files, scalars and lists, valid and invalid combinations',
     TESTS + '; invalid files never occur in them.',
     [ST, SRC + 'fileio/native/state.py'], [('resolution of states', ST + ':update_from_dict, check_values')],
     'property-based testing: valid files against an independent standard atmosphere, invalid files must be refused',
     'independent ISA model for 0-80 km')
prop('C15', 'A batch of flight states gives what single analyses give',
     'Analysing a list of flight states gives for each entry, in order, exactly the results of analysing that state alone: '
     'in memory, in the per-state result files and in the aeroperformance file.',
     ['inputs', 'histories'], 'all sequences of flight states on one aircraft, with and without deformation',
     TESTS + '; state leaking from one analysis to the next needs at least two different states compared with single runs.',
     [RUN, VLM, ST, SRC + 'fileio/native/results.py'], [('iteration over states', RUN + ':standard_run'), ('re-used model', VLM + ':gen_lattice')],
     'property-based testing: differential between a batch and its single runs over generated sequences',
     'relative 1e-9')
prop('C16', 'Saving and reloading an aircraft changes nothing',
     'An aircraft that was loaded and saved again gives the same lattice and the same loads when it is loaded from the new file, and the saved file '
     'is a valid aircraft file with the same wings, segments, airfoils, controls and reference values.',
     ['inputs', 'histories'], 'all aircraft files, repeated save/load cycles', TESTS + '; nothing reloads a saved aircraft and compares.',
     [SRC + 'fileio/native/aircraft.py', SRC + 'fileio/utils.py', SRC + 'stdfun/setup.py'],
     [('writer', SRC + 'fileio/native/aircraft.py:save'), ('reader', SRC + 'fileio/native/aircraft.py:load')],
     'property-based testing: round-trip through the file format and through a complete analysis', 'exact')
prop('C17', 'Settings and states survive saving; settings files are honoured',
     'Saving settings or a flight state writes a file that loads back to the same analysis and leaves the values in use untouched; '
     'settings left out take their documented defaults, and settings of the wrong type or range are refused.',
     ['inputs', 'histories'], 'all settings and state files, valid and invalid', TESTS + '; only one or two fixed settings files occur.',
     [SE, SRC + 'fileio/native/settings.py', SRC + 'fileio/native/state.py', SRC + 'objects/utils.py'],
     [('settings', SE + ':Settings'), ('type check', SRC + 'objects/utils.py:check_dict')],
     'property-based testing: round-trip, default model and generated invalid files', 'exact')
prop('C18', 'Result files say what was computed and exist exactly when requested',
     'Every requested result file is written under the result directory of the project and state, contains the values of the analysis to the '
     'printed precision, and no file that was not requested appears.',
     ['inputs', 'configurations'], 'all combinations of result settings, project names and batches', TESTS + '; contents of result files are never read.',
     [SRC + 'fileio/native/results.py', RUN, SE], [('writers', SRC + 'fileio/native/results.py:save_all, save_aeroperformance_map')],
     'property-based testing: generated runs, result files parsed and compared with the analysis; directory model',
     'printed precision of the files')
prop('C19', 'Deformation fields move every strip as the field says',
     'A deformation given for points along a wing moves and turns every strip edge as the interpolated field says, on its own side only and the same for every flight state; '
     'a uniform translation of everything only moves the aircraft.',
     ['inputs', 'histories'], 'all fields, wings, sides and sequences of states', TESTS + '; the deformation example has one small field and no comparison.',
     [SRC + 'fileio/native/deformation.py', AC], [('field evaluation', AC + ':get_deformed_segment_point'), ('loader', SRC + 'fileio/native/deformation.py:load')],
     'property-based testing: generated fields against an independent model of displacement and rotation', 'geometry 1e-9 of the size')
prop('C20', 'Project commands touch only what they promise',
     'Cleaning a project removes exactly its generated result and plot folders; creating an example makes a new runnable project folder and never '
     'touches an existing one; an analysis writes only inside its project. The list of examples names every aircraft of the database, and an unknown '
     'name is answered with that list.',
     ['inputs', 'histories', 'configurations'], 'all project layouts, including stray files, links and repeated commands',
     TESTS + '; only fresh directories are used.',
     [SE, SRC + 'stdfun/setup.py', 'src/bin/_pytornado_exe.py'], [('clean', SE + ':clean'), ('make example', SRC + 'stdfun/setup.py:setup_wkdir')],
     'property-based testing: generated project trees and command sequences against a file-tree model', 'runs unprivileged in a scratch directory with recorded escapes')
prop('C21', 'Ill-defined aircraft are refused; well-defined ones are measured right',
     'Files with duplicate identifiers, unknown segments, impossible symmetry flags, device types or control limits are refused with an error instead of '
     'analysed; for valid files the spans, areas and automatic panel numbers are those of the geometry.',
     ['inputs'], 'all valid aircraft files and single-fault mutations of them', TESTS + '; invalid files never occur in them.',
     [AC, SRC + 'fileio/native/aircraft.py', VLM], [('validation', AC + ':generate, check'), ('automatic panels', VLM + ':set_autopanels')],
     'property-based testing: generated valid files with independent measures, and fault-injecting mutations that must be refused', 'measures 1e-9')
prop('C22', 'Results do not depend on how the same aircraft is written',
     'Renaming components, reordering wings, controls or keys, writing one wing as two and describing a symmetric wing by its left half give the same loads.',
     ['inputs'], 'all aircraft and rewritings of their files', TESTS + '; needs two files for one aircraft.',
     [AC, VLM, SRC + 'fileio/native/aircraft.py'], [('panel ordering and book-keeping', VLM + ':gen_lattice')],
     'property-based testing: metamorphic rewritings of generated aircraft files', 'tolerance scaled with conditioning')
prop('C23', 'CPACS documents are analysed like native files; results return to them',
     'A CPACS document gives the same aircraft (wings, fins, either spanwise direction, airfoils, controls and their deflections, references), flight '
     'states, lattice and loads as the equivalent native project; converting it to JSON keeps that; an aeroperformance map run writes the six '
     'coefficients of every state into the selected map and changes nothing else in the document; unusable documents are refused.',
     ['inputs', 'histories'], 'all documents of the supported kind (trailing edge devices) and repeated runs', TESTS + '; none of them runs CPACS, whose libraries are not installed.',
     [SRC + 'fileio/cpacs/aircraft.py', SRC + 'fileio/cpacs/state.py', SRC + 'fileio/cpacs/results.py', SRC + 'fileio/cpacs/utils.py', SRC + 'stdfun/setup.py', SRC + 'stdfun/run.py'],
     [('segments and controls', SRC + 'fileio/cpacs/aircraft.py:get_aircraft_wings'), ('map', SRC + 'fileio/cpacs/utils.py:APM')],
     'property-based testing: differential against the generated native project, through stand-ins of the TiXI/TiGL call interface',
     'loads 1e-6 of the load scale (1e-2 where vertices differ in the last digit), coefficients 6 digits')
prop('C24', 'Plots are written exactly when requested and change no result',
     'Requesting plots writes the requested files in the plot directory of the project and state, they show segments, controls, panels, values, centre of gravity and free stream as they are, with the whole aircraft in view, and every numerical result stays as it is without them.',
     ['inputs', 'configurations'], 'all combinations of plot settings, aircraft and batches', TESTS + '; the plotting test never looks at results.',
     [SRC + 'plot/makeplots.py', SRC + 'plot/plottools.py', SRC + 'plot/downwash.py'], [('dispatch', SRC + 'plot/makeplots.py:make_all')],
     'property-based testing: differential runs with and without plots plus a file-set model', 'results bit-identical')
prop('C25', 'Command line and library give the same results from anywhere',
     'Running a settings file through the command line or the library, by absolute or relative path, from any directory, finds all input files relative '
     'to the project (never others of the same name elsewhere) and gives identical results and no effects outside the project; missing or wrong inputs or '
     'arguments give a non-zero exit status and no results.',
     ['inputs', 'configurations'], 'all project locations, working directories and path spellings', TESTS + '; always run from one directory.',
     ['src/bin/_pytornado_exe.py', SE, SRC + 'fileio/native/settings.py'], [('path resolution', SE + ':generate_paths')],
     'property-based testing: differential over generated locations, spellings and entry points', 'results bit-identical')
prop('C26', 'The kernels are memory safe and repeatable, alter no input, keep no memory',
     'For every lattice the compiled kernels read and write only inside the arrays they are given, leave their inputs unchanged, give the same result '
     'when they are called again in any order on reused objects, and keep nothing of it in memory once the objects are released.',
     ['inputs'], 'all lattice sizes, panel arrangements and repeated calls', TESTS + '; out-of-bounds accesses and stale memory rarely show as a crash.',
     [CPP + 'c_vlm.cpp', CPP + 'c_lattice.cpp', CPP + 'c_downwash.cpp', CPP + 'c_boundary.cpp', CPP + 'c_results.cpp'],
     [('Python bindings', CPP + 'c_vlm.cpp')],
     'fuzzing of the kernels under AddressSanitizer/UBSan with generated lattices, repeat-call and input-unchanged oracles', 'sanitizer build of the extension')

prop('C27', 'Segments given by chords and angles are the segments these describe',
     'A wing segment may be given by its four corners, or by one corner (or one edge) and geometric parameters (chords, incidence, yaw, axis, span, '
     'sweep, dihedral). Each accepted combination gives the corners which the parameters describe, the same loads as the same segment given by its '
     'corners, and survives saving; corners have the parameters which describe them; incomplete combinations are refused.',
     ['inputs'], 'all parameter values and all combinations of corners and parameters', TESTS + '; no test defines a segment this way.',
     [AC, SRC + 'fileio/native/aircraft.py'], [('segment generation', AC + ':WingSegment.generate')],
     'property-based testing: independent geometric model, round trip corners to parameters and back, metamorphic pairs of projects, fault injection into definitions',
     'corners 1e-9; loads as in C22')

prop('C28', 'An analysis depends on its own files only, not on what was done before',
     'Within one process, whatever was analysed, loaded, changed in memory or failed before (other projects with files of the same names, '
     'earlier contents of the same files), an analysis gives the results, settings in use and result files which it gives in a new process, '
     'and leaves the working directory, the environment, random state and numerical settings of the process as they were.',
     ['histories', 'inputs'], 'all histories of analyses, edits, failures and scripts in one process', TESTS + '; every test starts from one project and never returns to it.',
     [SRC + 'stdfun/run.py', SRC + 'objects/settings.py', AC, SRC + 'aero/vlm.py', SRC + 'objects/state.py'],
     [('standard analysis', SRC + 'stdfun/run.py:standard_run')],
     'model-based testing: generated histories in one process, each analysis compared with the same analysis in a newly forked process', 'reference process forked before any analysis')

NOT_APPLICABLE = {}


def main():
    have = {f[:-3].upper() for f in os.listdir(os.path.join(HERE, 'vk', 'checks')) if f.startswith('c')}
    checks, na = [], []
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as fp:
        for p in P:
            if p['id'] not in have and p['id'] not in NOT_APPLICABLE:
                continue
            assert len(p['title']) <= 80, p['title']
            fp.write(json.dumps(dict(
                id=p['id'], title=p['title'], statement=p['statement'],
                quantifier=dict(over=p['over'], text=p['text']), why_tests_cant=p['why'],
                anchors=dict(files=p['files'], mechanism=[dict(name=n, where=w) for n, w in p['mech']]))) + '\n')
            if p['id'] in have:
                checks.append(dict(property=p['id'], quick_cmd=f"bin/check {p['id']} quick",
                                   thorough_cmd=f"bin/check {p['id']} thorough", technique=p['technique'],
                                   level='exploration', level_note=p['note']))
            else:
                na.append(dict(property=p['id'], reason=NOT_APPLICABLE[p['id']]))
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as fp:
        json.dump(dict(version=1, setup_cmd='bin/check --list', checks=checks, not_applicable=na), fp, indent=1)
        fp.write('\n')


main()
