#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run after editing)."""
import json, os
P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=' '.join(statement.split()),
                  quantifier=dict(over=over, text=' '.join(text.split())),
                  why_tests_cant=' '.join(why.split()),
                  anchors=dict(files=files,
                               mechanism=[dict(name=n, where=w) for n, w in mechanism],
                               observe_at=observe or [], hook_needed=None)))


SD = ['rsbeams/rsdata/SDDS.py', 'rsbeams/rsdata/datatypes.py', 'rsbeams/rsdata/struct_data.py', 'rsbeams/rsdata/utils.py']
prop('D01', 'Reading an SDDS file returns exactly the data stored in it',
     '''A full read of an SDDS version-1 file (binary little-endian or ASCII; parameters and columns of the numeric
     types and strings, in ASCII data also quoted ones; any number of pages and rows; comment lines in the header or the ASCII data and comments after the data of a line) returns, for every page in file
     order, every non-fixed parameter and every row of every column with exactly the value stored, under its own
     name; a page without rows contributes its parameters and no entry to the columns. No page, row or field is dropped, duplicated, reordered or altered, and fields with a fixed value take nothing from the data section.''',
     ['inputs', 'configurations'],
     '''Every combination of data mode, column/parameter type list, page count, row count (including ragged and empty pages), string length,
     comment placement and row-count convention within the bounds of the specification.''',
     '''The existing tests read a handful of files and mostly check only that nothing raises or a few values of one column; they never quantify over
     page structure, types or string lengths.''',
     SD, [('readSDDS.read', 'rsbeams/rsdata/SDDS.py'), ('StructData.add/concat', 'rsbeams/rsdata/struct_data.py')],
     ['readSDDS.parameters', 'readSDDS.columns'])
prop('D02', 'SDDS page selection returns exactly the requested pages',
     '''Reading an SDDS file with a selection of page numbers returns exactly those pages that exist, in file order, with the same
     parameters and columns the full read returns for them, whatever pages were skipped before, between or after them and whatever the types
     of the fields. Page numbers beyond the end contribute nothing.''',
     ['inputs', 'configurations'], 'Every subset of pages of every file in the D01 space, in every reading mode.',
     'Tests use page selection on one file and compare shapes only.',
     SD, [('readSDDS.read(pages)', 'rsbeams/rsdata/SDDS.py')], ['readSDDS.parameters', 'readSDDS.columns'])
prop('D03', 'Buffered and unbuffered SDDS reading are equivalent',
     '''For every SDDS file, reading with and without the in-memory buffer yields the same parameters, columns, page order and header description,
     for full reads and for page selections. Verbosity and a string bound larger than every string in the file change nothing either.''',
     ['inputs', 'configurations'], 'Every file in the D01 space crossed with every reading mode and page selection.',
     'Tests never compare the two modes on multi-page data.',
     SD, [('_get_position/_check_file_end', 'rsbeams/rsdata/SDDS.py')], ['readSDDS.parameters', 'readSDDS.columns'])
prop('D04', 'SDDS header metadata is reported faithfully',
     '''For every parameter and column declared in an SDDS header the reader reports exactly the declared type, units, symbol, description,
     format string and (for parameters) typed fixed value, and the documented default when an attribute is absent,
     whatever the order of the attributes, however the definition is spaced or split over lines and whatever other definitions precede it.''',
     ['inputs'], '''Every attribute subset, order, line split, quoting and comment placement of the header grammar within the bounds.''',
     'Tests parse fixed header snippets for a few fields.',
     SD, [('Datum.parse_namelist', 'rsbeams/rsdata/datatypes.py'), ('_read_header', 'rsbeams/rsdata/SDDS.py')],
     ['readSDDS.column_units etc.'])
prop('D05', 'SDDS write then read is the identity',
     '''Parameters and columns given to the SDDS writer and saved, in ASCII or binary mode, are read back by the SDDS reader in either buffering mode with the same names, order,
     declared types, units, symbols, descriptions and fixed values, the same number of rows, and values equal to
     the ones given (exactly for integers and binary doubles, to 17 significant digits for ASCII doubles).''',
     ['inputs', 'histories'], '''Every sequence of create-parameter, create-column and save operations within the bounds (types double/long/short,
     columns matching their declared type, zero or more rows, fixed values including zero), each file read in both buffering modes.''',
     'Tests write a few files and compare headers/bytes for one layout.',
     SD, [('writeSDDS.save_sdds', 'rsbeams/rsdata/SDDS.py')], ['files written', 'readSDDS'])
prop('D06', 'A refused SDDS save leaves any existing file unchanged',
     '''When saving is refused because the columns do not all have the same length, a file that already existed under the target name keeps its complete previous
     content and no new file with partial content appears. The writer stays usable: a later valid save to the same target succeeds completely.''',
     ['histories', 'inputs'], 'Every history of creates, valid saves and refused saves on up to two targets within the bounds.',
     'No test saves inconsistent columns over an existing file.',
     SD, [('writeSDDS.save_sdds', 'rsbeams/rsdata/SDDS.py')], ['target files'])
prop('D07', 'Input that is not a supported SDDS file is rejected, never misread',
     '''A file that does not identify itself as SDDS version 1, contains something other than definitions before the data definition, or declares a parameter or column of an
     unknown type makes opening it raise an error. It never yields a reader with data.''',
     ['inputs'], 'All single-fault corruptions of the header grammar within the bounds.',
     'No test opens a malformed file.',
     SD, [('_read_header', 'rsbeams/rsdata/SDDS.py'), ('set_data_type', 'rsbeams/rsdata/datatypes.py')], ['readSDDS constructor'])

SW = ['rsbeams/rsdata/switchyard.py', 'rsbeams/rsptcls/species.py']
prop('W01', 'elegant import/export through the switchyard preserves the beam',
     '''Reading an elegant beam file gives for every particle, in order, x, y unchanged, ux = x' p, uy = y' p, ct = t c and total
     momentum p, of electrons, plus the file's charge (zero when it states none); writing any species to an elegant file and reading it back returns the same particles, order and
     charge to floating-point accuracy. The stored particle data are not modified by writing.''',
     ['inputs', 'histories'], 'Every number of particles (including one), charge, mode and column order within the bounds, any chain of write and read.',
     'Tests check that files exist and one conversion of one file.',
     SW, [('Switchyard.read_elegant/write_elegant', 'rsbeams/rsdata/switchyard.py')], ['Switchyard.species', 'files'])
prop('W02', 'The switchyard species registry never loses or mixes species',
     '''Over any sequence of reads and writes every successful read registers exactly one new species under the requested name (or the default name when none is given),
     never changing or replacing a species registered before. An unsupported format, a name already in use or a failed read leaves the registry unchanged,
     and a write exports the species it was asked for (the first registered one when no name is given) and modifies none.''',
     ['histories'], 'All operation sequences over the supported formats, names and failures to the bounded length.',
     'Tests perform one read per object.',
     SW, [('Switchyard.read/write', 'rsbeams/rsdata/switchyard.py')], ['Switchyard.species'])
prop('W03', 'OPAL import returns the requested step of every particle',
     '''Reading an OPAL file returns the coordinates of the step asked for (step 0 included), or of the numerically last step when none is
     given, whatever the number of steps, digits in their numbers or storage order. Coordinates and charge are taken from that step
     only, unchanged and with particle order kept, and the particles are electrons.''',
     ['inputs'], 'Every set of step numbers, requested step and particle count within the bounds.',
     'The test reads one step of one file.',
     SW, [('Switchyard.read_opal', 'rsbeams/rsdata/switchyard.py')], ['Switchyard.species'])
prop('W04', 'Text beam exports list every particle of the chosen species once',
     '''Exporting a species to the OPAL or Genesis text format writes a count equal to the number of particles and exactly one row per particle,
     in order, each coordinate in its documented column and unit, together with the charge where the format has one. Reading the text back numerically recovers every
     coordinate to the printed precision.''',
     ['inputs'], 'Every species size, name and sign/magnitude pattern within the bounds.',
     'Tests check file existence only.',
     SW, [('Switchyard.write_opal/write_genesis', 'rsbeams/rsdata/switchyard.py')], ['files'])

LB = ['rsbeams/rslattice/Beamline.py', 'rsbeams/rslattice/Element.py']
prop('B01', 'A beamline tree flattens to its elements in insertion order',
     '''After any sequence of adding elements, opening sublines at any depth and adding to them, the flattened sequence of a beamline is the depth-first
     left-to-right order of insertion, contains every element added exactly once, and names map to the right objects.
     Adding to one line never changes another line that does not contain it.''',
     ['histories'], 'All build histories within the bounded depth and length, including interleaved additions to different sublines.',
     'No test builds a beamline.', LB, [('StructuredBeamline', 'rsbeams/rslattice/Beamline.py')], ['get_beamline_elements'])
prop('B02', 'Beamline length and edge positions follow the current elements',
     '''At every point of a build/edit history, the length of a line is the sum of the current lengths of its elements (elements without length count zero, nested lines recursively, repeated elements each time) and the
     upstream edge of an element is the sum of the lengths before its first occurrence in the top-level line. Neither can be assigned.''',
     ['histories'], 'All build/edit histories within the bounds, lengths edited or added after insertion included.',
     'No test builds a beamline.', LB, [('beamline.length/_edge', 'rsbeams/rslattice/Beamline.py')], ['length', 'edge'])
prop('B03', 'Element parameters are case-insensitive and edits stay local',
     '''An element parameter written under any capitalisation is read back under any capitalisation, and the last write wins, however the parameter is accessed (indexing, get, in, update, pop, deletion, edit_element). Editing one element's
     parameters changes no other element, and adding an element with the parameters of an existing one copies rather than shares them.''',
     ['histories'], 'All write/read histories over several elements and spellings within the bounds.',
     'No test edits an element.', LB, [('AgnosticDict', 'rsbeams/rslattice/Element.py')], ['element parameters'])
prop('B04', 'Saving and loading a beamline is the identity',
     '''Any beamline saved to file and loaded into a new beamline reproduces the same tree: the same nesting of sublines, the same elements in the same order with the same names, types and parameter
     values, and hence the same flattened sequence and length (the format stores no subline names). A beamline that already holds something refuses to load.''',
     ['histories', 'inputs'], 'Every tree reachable by the B01 build histories within the bounds.',
     'No test saves a beamline.', LB, [('save_beamline/load_beamline', 'rsbeams/rslattice/Beamline.py')], ['files', 'loaded beamline'])
prop('B05', 'The transfer matrix of a line is the ordered product of its elements',
     '''The transfer matrix of a beamline equals the product of the transfer matrices of its flattened elements applied in beam order, using each element's current
     parameters; it is the identity for an empty line, a quadrupole of zero strength acts as a drift, and the determinant is one in each plane for drifts and quadrupoles. Parameters given
     as variable names are replaced by the values passed to the returned function.''',
     ['inputs', 'histories'], 'Every sequence of drifts and quadrupoles to the bounded length, nested arbitrarily, with parameter edits in between.',
     'No test computes a matrix.', LB, [('generate_matrix', 'rsbeams/rslattice/Beamline.py')], ['matrix'])

LT = ['rsbeams/rslattice/lte_parser.py'] + LB
prop('L01', 'An elegant lattice expands to exactly its written sequence',
     '''Parsing an elegant lattice file yields, for every line defined in it, the element sequence its text denotes: nested lines expanded in place, repetition factors on elements,
     lines and (nested) parenthesised groups repeated that many times, and every use of a line giving its complete sequence. Comments, blank lines, white space,
     line continuation, letter case, quoting of names and order of definitions have no influence.''',
     ['inputs'], 'Every lattice text of the specified grammar within the bounds (nesting, multiplicity, reuse, comments, continuation).',
     'No test parses a lattice file.', LT, [('elegant.load_file / StructuredBeamline', 'rsbeams/rslattice/lte_parser.py')],
     ['parser.beamlines'])
prop('L02', 'elegant element parameters and RPN variables evaluate exactly',
     '''Every parameter of every element of a parsed elegant lattice has the value written in the file: numbers as numbers, strings as given (in lower case, as the parser is case-insensitive), and RPN expressions (stored variables
     included, also variables defined from earlier variables) as the value reverse Polish evaluation gives.''',
     ['inputs'], 'Every expression and parameter list of the specified grammar within the bounds.',
     'No test parses a lattice file.', LT, [('rpn evaluation', 'rsbeams/rslattice/lte_parser.py')], ['element parameters'])
T3 = ['rsbeams/rslattice/trace3d_parser.py'] + LB
prop('T01', 'Trace3D import keeps every element and value',
     '''Parsing a Trace3D input file yields one element per element card in file order, named by the index of the card, with the type its card number denotes. Each
     parameter written carries exactly the number in the file (sign, exponent, integer or decimal form) in the units of the beamline: mm become m, degrees of bend and edge
     angles radians, MV volts. A bend also has its arc length. Comments, blank lines and the lines around the cards add nothing.''',
     ['inputs'], 'Every sequence of element cards, number of values, number spelling, separator, comment and header within the bounds.',
     'No test parses a Trace3D file.', T3, [('Trace3d', 'rsbeams/rslattice/trace3d_parser.py')], ['beamline elements'])
prop('T02', 'TraceWin import keeps every element and value',
     '''Parsing a TraceWin lattice yields the elements its lines denote, in file order, under unique names, with the type of the keyword and each parameter equal to the number
     written (lengths in m). dtl_cel gives its two quadrupoles around its cavity, ncells and field_map a cavity, with the lengths, voltages and phases they stand for. A freq card adds no
     element and gives its frequency to exactly the cavities after it; ncells and field_map before any frequency are refused. Comments and blank lines add nothing.''',
     ['inputs', 'histories'], 'Every sequence of element lines, keyword case, number spelling, comments and frequency cards within the bounds.',
     'No test parses a TraceWin file.', T3, [('TraceWin', 'rsbeams/rslattice/trace3d_parser.py')], ['beamline elements'])
prop('T03', 'Merging Trace3D bend edges and cavity drifts keeps the lattice equivalent',
     '''handle_bends turns every edge-bend-edge group into one bend that carries the angles of its own two edges and the gap and fringe field integral of the first, and removes exactly those edges.
     handle_cavities gives every cavity the length of the drifts around it, empties those drifts, so that the total length is unchanged (a drift between two cavities is
     used once), and counts each cavity's own phase from the crest. All other elements, and the order, are unchanged.''',
     ['inputs', 'histories'], 'Every sequence of edge-bend-edge and drift-cavity-drift groups among other elements, and both orders of the operations, within the bounds.',
     'No test covers the Trace3D parser.', T3, [('handle_bends/handle_cavities', 'rsbeams/rslattice/trace3d_parser.py')], ['beamline elements'])
prop('J01', 'A Sirepo lattice JSON imports as the beamline it describes',
     '''Importing a Sirepo elegant/madx JSON yields the beamline whose flattened elements are exactly those the referenced line denotes: sublines expanded in
     place, reversed references giving the fully reversed sequence (a line reversed inside a reversed line runs forward), and every use of a line complete. Element parameters keep their values, expressions stored in the RPN cache get theirs, and the imported model is not changed.''',
     ['inputs'], 'Every JSON beamline graph (nesting, reuse, reversal) within the bounds.',
     'The existing test file is empty.', ['rsbeams/rslattice/templates/lattice_importer.py'] + LB,
     [('parse_json', 'rsbeams/rslattice/templates/lattice_importer.py')], ['beamline'])
prop('X01', 'The Warp exporter writes every element in order with its values',
     '''The Warp lattice text written for a beamline defines every distinct element once, with the Warp type of its kind and its current parameter values (elements without counterpart are drifts of
     their length), and lists the line in exactly the beamline order, so executing the text reconstructs the sequence and values; writing again, also after edits, gives a complete file again. A beamline that lacks a needed parameter is refused and the file left alone.''',
     ['inputs'], 'Every beamline of supported elements within the bounds.',
     'No test writes a Warp file.', ['rsbeams/rslattice/formatted_writer.py'] + LB, [('WarpWriter', 'rsbeams/rslattice/formatted_writer.py')], ['text'])
prop('N01', 'The nonlinear insert follows its design formulas for any parameters',
     '''For any length, phase, strength, aperture and number of slices the nonlinear insert produces one magnet per slice, located at equal spacing and
     symmetric about the centre, with the ideal beta function of the phase advance and strengths and apertures following it. Changing design parameters and
     regenerating gives the same result as constructing the insert with them; a negative aperture is refused and changes nothing; the MAD-X elements carry the generated values.''',
     ['inputs', 'histories'], 'All parameter sets and histories of settings, generations and exports on several inserts within the bounds.',
     'No test uses the insert.', ['rsbeams/rslattice/nonlinear.py'], [('NonlinearInsert', 'rsbeams/rslattice/nonlinear.py')], ['s_vals, betas, knll, cnll, create_madx'])

KI = ['rsbeams/rsstats/kinematic.py']
prop('K01', 'Kinematic quantities are mutually consistent for any starting quantity',
     '''Starting from any one of momentum, velocity, kinetic energy, energy, beta, gamma, beta*gamma or rigidity, in eV or SI units, with any particle mass given in eV or SI units,
     the converter returns all the others as the exact relativistic values in the requested output units (E^2=p^2c^2+m^2c^4, gamma=E/mc^2, beta=pc/E, Brho=p/e), so
     converting any output again reproduces the same set.''',
     ['inputs', 'configurations'], 'All eight starting quantities x input unit x mass unit x output unit x exact rational velocities and masses within the bounds; Python and command-line entry.',
     'Tests sample an electron and proton grid for part of the combinations.',
     KI, [('Converter', 'rsbeams/rsstats/kinematic.py')], ['Converter()'])
prop('K02', 'A converter gives the same answer every time it is used',
     '''Calling a converter repeatedly, or several converters in any order, returns the same values, units and echo of the input each time. The reported mass and echoed input are expressed
     in the unit they are labelled with.''',
     ['histories', 'configurations'], 'All bounded call histories over several converters with all unit combinations.',
     'Tests call each converter once.', KI, [('Converter.__call__', 'rsbeams/rsstats/kinematic.py')], ['Converter()'])
prop('Q01', 'Physical constants agree in every unit system',
     '''The constants of the module of physical constants have their SI values, and the same quantity has the same value in every unit (kg, g and eV; C and statC; m/s and cm/s; eV and erg) whichever constants
     and conversion factors of the module are combined to get there; derived constants (squares, inverses, roots, 1/(4 pi epsilon_0)) follow from their definitions.''',
     ['configurations'], 'Every conversion path to the bounded length from every stored quantity.',
     'No test imports the module.', ['rsbeams/rsphysics/rsconst.py'], [('rsconst', 'rsbeams/rsphysics/rsconst.py')], ['module constants'])
prop('G01', 'The Warp command converts strengths with the rigidity of the beam',
     '''Converting an elegant simulation to Warp writes the sequence of the chosen line with, for every quadrupole and sextupole, the gradient normalised strength x (B rho) for the central momentum
     the simulation states, of opposite sign (B rho = p/e for an electron beam), and for every bend the radius length/angle; lengths are kept and all other elements are drifts of their length. Simulations that lack a
     parameter a magnet needs are refused and leave the output file alone.''',
     ['inputs', 'configurations'], 'Every beamline graph, element type, strength, momentum and position of the run_setup command within the bounds.', 'No test runs the command.',
     ['rsbeams/pkcli/lattice.py', 'rsbeams/rslattice/formatted_writer.py', 'rsbeams/rslattice/templates/lattice_importer.py'],
     [('elegant_to_warp', 'rsbeams/pkcli/lattice.py')], ['Warp text'])
prop('E01', 'A lattice survives any chain of imports, edits, saves and exports',
     '''In a session that imports elegant and Sirepo lattice files, edits and appends elements, saves lattices to YAML, loads them again and exports them for Warp, in any order and with file names used again for
     other contents, every lattice in memory always lists exactly the elements, types, lengths and parameters of its source with its own edits, and has their total length; what a save, import or export produces is decided
     by the present content of the file or lattice alone. An edit reaches every occurrence of the element in its line and no other lattice or file; occurrences of a saved line become lines of their own when loaded.''',
     ['histories', 'inputs'], 'Every session of three (thorough: four) steps on two files and two lattices of few elements, drawn sessions of fourteen steps on three files and three lattices with repeated lines of up to six items.',
     'No test passes a lattice from one part of the package to another, and none uses a file name twice.',
     ['rsbeams/rslattice/lte_parser.py', 'rsbeams/rslattice/templates/lattice_importer.py', 'rsbeams/rslattice/Beamline.py', 'rsbeams/rslattice/Element.py', 'rsbeams/rslattice/formatted_writer.py'],
     [('BeamlineParser', 'rsbeams/rslattice/lte_parser.py'), ('parse_json', 'rsbeams/rslattice/templates/lattice_importer.py'), ('save_beamline/load_beamline', 'rsbeams/rslattice/Beamline.py'),
      ('WarpWriter.write_file', 'rsbeams/rslattice/formatted_writer.py')], ['StructuredBeamline', 'files'])
ST = ['rsbeams/rsstats/stats6d.py']
prop('A01', 'Beam statistics are exact and leave the data untouched',
     '''Means, variances, RMS values (standard deviations), the covariance matrix and the extrema of a 6D particle array equal their defining formulas for any array and number of particles,
     in whatever order they are asked for, and computing them never modifies the array. Rounding to n significant figures returns the nearest number with n significant decimal digits (zero for zero).''',
     ['inputs', 'histories'], 'All pairs of rows of small integers in arrays of 1..3 particles, drawn arrays of up to 8 particles, all orders of the calls, before and after centring and normalising.',
     'The one test checks the averages of one array; nothing compares a variance, a covariance or the array afterwards.', ST, [('calc_avg6d, calc_variance6d, calc_correlations6d', 'rsbeams/rsstats/stats6d.py')], ['return values', 'the array after the call'])
prop('A02', 'Beam normalisations achieve their stated moments',
     '''Subtracting the averages yields zero means and keeps all differences between particles; normalising divides each coordinate by its RMS, so that every RMS is one; removing the correlations rotates the beam
     (all inner products of particles are kept) so that the covariance is diagonal, for any non-degenerate beam. Centring and normalising again changes nothing.''',
     ['inputs', 'histories'], 'All transform sequences within the bounds on small integer arrays; correlated arrays of eight particles whose whitened inner products are known exactly.',
     'The tests look at the RMS of one random beam to three digits.', ST, [('sub_avg6d, normalize_rms6d, rm_correlations6d', 'rsbeams/rsstats/stats6d.py')], ['the array after the call'])
PT = ['rsbeams/rsptcls/RsDistrib6D.py', 'rsbeams/rsptcls/RsPhaseSpace6D.py', 'rsbeams/rsptcls/RsPtclBeam6D.py', 'rsbeams/rsptcls/RsTwiss2D.py']
prop('A03', 'Generated 6D distributions are standardised',
     '''A uniform or Gaussian 6D distribution has exactly the requested number of particles and, once generated or cleaned, zero mean, unit RMS in each coordinate and no correlations. Sampling it again draws independent particles inside the
     unit ball (uniform: positions and momenta separately) or whose squares are below the truncation factor (Gaussian). Offsetting or multiplying a coordinate changes exactly that coordinate. An
     unsupported type (with a message naming it), particle count, factor or coordinate index is refused.''',
     ['inputs', 'histories'], 'All types, drawn counts, factors and histories of sampling, cleaning, offsetting and scaling, many seeds; means and covariances decided as exact rationals after every step.',
     'The test checks one type and seed to three digits.', PT + ST, [('RsDistrib6D', 'rsbeams/rsptcls/RsDistrib6D.py')], ['phase space array'])
prop('A04', 'A Twiss-matched beam has the requested Twiss parameters',
     '''A beam made with given Twiss parameters and emittances has, in every plane and for either sign of alpha, exactly the requested second moments (emittance times beta, -alpha, gamma), no coupling between the planes, and measuring its Twiss parameters returns
     the requested alpha, beta, gamma and emittance; gamma of every Twiss triple is (1 + alpha^2)/beta. The beam's relativistic factors follow from momentum over mass, and its peak current is
     charge x velocity / RMS length.''',
     ['inputs', 'histories'], 'Every Twiss triple of a rational grid (both signs of alpha, beta equal to, above and below gamma) in each plane, drawn histories of matching, scaling, offsetting and measuring, three emittance scales.',
     'Tests check one parameter set to three digits, and not the longitudinal plane.', PT + ST, [('make_twiss_dist_6d, calc_twiss6d', 'rsbeams/rsptcls/RsDistrib6D.py')], ['phase space array', 'Twiss objects'])
prop('A05', 'The phase-space container keeps every particle it is given',
     '''Over any history of construction, resizing, assignment, in-place changes and file writing and reading, the 6D phase-space container reports the particle count and array it was last given, with each coordinate in its own named row;
     an array written to a file is read back identically under its file name only, and malformed arrays, counts below one, empty file names and missing files are refused.''',
     ['histories'], 'All histories up to length four on one container and two containers sharing files, drawn histories of nine operations on three containers.', 'The test fills one container of six particles.', PT,
     [('RsPhaseSpace6D', 'rsbeams/rsptcls/RsPhaseSpace6D.py')], ['getters', 'files'])
BU = ['rsbeams/rsptcls/bunch.py']
prop('U01', 'Bunch Twiss and emittance settings stay self-consistent',
     '''After any sequence of constructing a bunch, setting its Twiss parameters, emittances, lengths, and (nonlinear bunch) strength, aperture and cutoff, by attribute or while generating coordinates, every attribute and the printed summary show the value last set for
     their own plane, with gamma = (1+alpha^2)/beta in each plane; the two beta functions of a nonlinear bunch are always equal. Values that make no sense (beta not positive, negative strength, aperture or cutoff) are refused and change nothing.''',
     ['histories'], 'All histories of three (thorough: four) settings on both bunch classes, drawn ones of seven, with coordinates generated in between.', 'No test uses a bunch.',
     BU, [('StandardBunch, NonlinearBunch properties', 'rsbeams/rsptcls/bunch.py')], ['attributes', 'print_Twiss output'])
prop('U02', 'Generated bunches satisfy their defining invariant for every particle',
     '''Every particle of a KV bunch has the same invariant, equal to the total emittance (four times the planar emittance for a linear bunch, the planar emittance for a nonlinear one); particles of nonlinear waterbag and Gaussian
     bunches have positive invariants up to the total emittance (times the cutoff); linear Gaussian bunches scale with sqrt(emittance x beta) and sqrt(emittance x gamma) in each plane and the longitudinal coordinates with their standard deviations. This holds for the
     settings in force when the coordinates are generated. The bunch's own Hamiltonian reports this invariant. Quiet bunches keep it and have a centroid of exactly zero. A bunch has the requested number of particles with
     consecutive identifiers, generating one set of coordinates leaves the others alone, a KV bunch with different planar emittances is refused, and bunches made with the same seed and calls are identical.''',
     ['inputs', 'histories'], 'Drawn histories over a rational grid of settings, both classes, all distributions, quiet or not, 24 to 64 particles; the quadratic form of the linear invariant is recovered from the particles and decided exactly.', 'No test uses a bunch.',
     BU, [('distribute_KV, distribute_waterbag, distribute_Gaussian, exact_centroids', 'rsbeams/rsptcls/bunch.py')], ['particle array'])
prop('M01', 'Sampling from a tabulated distribution follows its inverse CDF',
     '''The cumulative distribution tabulated on a grid is the running sum of the density over its total and ends at one. Sampling returns n numbers in [a, b]: with numeric inversion the smallest grid
     point whose cumulative distribution reaches the variate, so that points of zero density are never returned and a Halton sequence, whose points are all different, visits every grid point in proportion to its density; with interpolation the
     grid point itself where the variate equals its cumulative value, a below the first one, the exact straight line for a uniform density, and no more than one step off for a slowly varying one. The density
     receives its arguments as given, a single one also without a tuple. What is not callable and unknown methods are refused.''',
     ['inputs'], '''All small tabulated densities (interpolation of densities with points of zero weight may be refused, and the cubic between the nodes of a jagged density is not prescribed),
     ranges, argument forms and variates within the bounds.''', 'No test samples: the example calls the functions for two smooth densities and looks at a plot.',
     ['rsbeams/rsstats/sample.py'], [('cdf_on_grid', 'rsbeams/rsstats/sample.py'), ('sample', 'rsbeams/rsstats/sample.py')], ['samples'])
prop('P01', 'Phase advance and tune of linear motion are exact for every particle',
     '''For two points of linear motion in normalized coordinates the phase advance is the angle turned in the sense asked for, between 0 and 2 pi, whatever the Twiss parameters behind the normalization, the amplitude, the starting
     phase and the number of turns; exchanging the points or the sense gives the complement. The tune of a signal of harmonics j/n over the selected window of n turns is that of the strongest one folded into [0, 1/2], whatever the phases,
     signs and weaker lines and whatever lies outside of the window, also for a column array; between harmonics it is off by less than one over the number of turns.''',
     ['inputs'], 'All exact rotations, Twiss triples, start points and sums of up to three harmonics within the bounds (a constant offset weaker than half the strongest amplitude).', 'No test computes phases.',
     ['rsbeams/rsptcls/phases.py'], [('phase_advance', 'rsbeams/rsptcls/phases.py'), ('tune_fft', 'rsbeams/rsptcls/phases.py')], ['return values'])
prop('C01', 'Decoherence centroids follow the ensemble average for any number of workers',
     '''The centroids of a kicked beam are returned in turn order, one for every turn from zero up to but excluding the given number, are the same for any number of worker processes and any order in which they finish,
     and equal the average of the kick amplitude over the waterbag distribution with the given detuning coefficients, whichever of the closed forms or the quadrature is used, including vanishing and negative coefficients. Turn zero is
     the kick itself, and a single turn may be asked for.''',
     ['inputs', 'schedules', 'configurations'], 'All worker counts, completion orders, turn counts and detuning coefficients (multiples of 1/16, up to third order) within the bounds; the closed forms called directly only where they exist.', 'No test runs decoherence.',
     ['rsbeams/rsphysics/decoherence.py'], [('calculate_centroids', 'rsbeams/rsphysics/decoherence.py'), ('integrate_any_order', 'rsbeams/rsphysics/decoherence.py')], ['return values'])
PL = ['rsbeams/rsplot/util.py', 'rsbeams/rsplot/beam_plots.py', 'rsbeams/rsplot/plot_ptcls.py', 'rsbeams/rsplot/RsScatterPS6D.py']
prop('V01', 'SDDS symbol markup renders to the right plot label',
     '''Translating an SDDS symbol string to a plot label converts every Greek, special, roman, subscript and superscript code to its TeX equivalent in order, leaves all other characters (and those without a Greek or special counterpart)
     untouched, keeps TeX commands apart from letters after them, and always yields balanced braces, between dollar signs exactly when a matplotlib label is asked for.''',
     ['inputs'], 'All symbol strings of the codes $a $b $n $g $s $r $e and other characters to the bounded length.', 'No test formats a symbol.',
     PL[:1], [('format_symbol', 'rsbeams/rsplot/util.py')], ['return value'])
prop('V02', 'Beamline profile drawing places every element at its position',
     '''The magnet profile drawn from the positions and types of a beamline shows one rectangle per quadrupole, bend, sextupole, octupole and cavity, in file order, spanning exactly from the position of the row before (zero for the first) to its own, scaled,
     of the given height and centred on the axis, in the colour of its kind (different for different kinds), over a line from zero to the end, and nothing else, whether the types are text or bytes.''',
     ['inputs'], 'All element sequences to the bounded length, with scales and heights.', 'No test draws a profile.', PL[:1], [('plot_profile', 'rsbeams/rsplot/util.py')], ['axes patches', 'axes lines'])
prop('V03', 'Beam and beamline plots show the data of the chosen page',
     '''The beamline plot shows every requested quantity of the page against position, under its symbol or description and unit, with the magnets. Phase space plots show the histogram of exactly the particles of the page: two-dimensional counts at the right
     place and orientation with the extent of the data in their units (mm, mrad, ps around the mean, relative momentum), and the one-dimensional projections beside and below; the longitudinal one as current from the charge given or
     stored (its integral is the charge), or as counts relative to the highest when there is none. All axes are labelled with their quantity and unit, and a plot is saved where asked.''',
     ['inputs', 'histories'], 'All small histograms, and drawn multi-page files, pages, bin numbers, charges and quantities (values on inner bin edges excluded).', 'Tests only compare the sizes of image files of one kind of plot.',
     PL[:2], [('beamline_profile', 'rsbeams/rsplot/beam_plots.py'), ('longitudinal_phase_space', 'rsbeams/rsplot/beam_plots.py'), ('get_current_from_t', 'rsbeams/rsplot/util.py')], ['matplotlib figures'])
prop('V04', 'Scatter and contour plots show every particle on the right axes',
     '''A scatter plot of a phase space shows every particle at its two chosen coordinates on symmetric axes reaching to the outermost particle, with the labels and title in force, as many times as asked, and refuses fewer than two particles. The generic plots draw
     dots, a line or both through all points with the requested linear or logarithmic axes, contours between one and the fullest bin, contours of the dense part (bins of eight and more) with every particle away from it as a dot, or the mesh of values given; generated contour levels are symmetric around zero.''',
     ['inputs', 'histories'], 'Drawn histories of relabelling, new data, plotting and saving, and all plot kinds on drawn data.', 'One test saves three plots and compares the sizes of the files.',
     PL[2:], [('plot_data6d', 'rsbeams/rsplot/RsScatterPS6D.py'), ('scatter_contour', 'rsbeams/rsplot/plot_ptcls.py')], ['matplotlib figures'])

if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
    ids = [p['id'] for p in P]
    assert len(set(ids)) == len(ids)
    with open(out, 'w') as f:
        for p in P:
            f.write(json.dumps(p) + '\n')
    print(len(P), 'properties')
