#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/mkprops.py)."""
import json, os
P = []
S = 'src/pwtools/'
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    a = dict(files=[f if '/' in f else S + f for f in files],
             mechanism=[dict(name=n, where=(w if '/' in w else S + w)) for n, w in mech])
    if state:
        a['state'] = [dict(name=n, meaning=m, where=(w if '/' in w else S + w)) for n, m, w in state]
    if observe:
        a['observe_at'] = observe
    a['hook_needed'] = None
    P.append(dict(id=id, title=title, statement=' '.join(statement.split()),
                  quantifier=dict(over=over, text=' '.join(qtext.split())),
                  why_tests_cant=' '.join(why.split()), anchors=a))

p('C01', 'Appending to a parameter study never disturbs earlier calculations',
  '''Writing a parameter study in append mode leaves every calculation directory and every database row
  produced by earlier writes exactly as they were (file contents, and all earlier column values, with
  newly introduced columns empty for old rows). The new calculations are numbered consecutively from one
  above the largest existing index and all carry one revision number, which is one above the largest
  existing revision (0 for a fresh database).''',
  ['histories', 'inputs'],
  '''every sequence of study writes on the same root (append or overwrite mode, with or without backup, any number
  of parameter sets, changing and incomplete parameter keys of one type per key, one or several machines, any table/db name)''',
  '''The tests run one write + one append with one fixed parameter list; the guarantee is about arbitrary
  histories of writes, including column sets that grow and shrink and mixes of append and overwrite.''',
  ['batch.py', 'sql.py'],
  [('write_input numbering (select max(idx), max(revision))', 'batch.py'), ('incremental add_column for unseen keys', 'batch.py')],
  [('idx', 'number of the calculation = name of its directory', 'batch.py'), ('revision', 'number of the write that added the row', 'batch.py')],
  ['calculation directories', 'sqlite database'])

p('C02', 'Study directories, database rows and input files always agree',
  '''After any sequence of study writes, each machine of the last write has one directory for every newly numbered calculation, every
  such directory contains exactly one file per template with each placeholder replaced by the file value of that
  row's parameter, of the machine attribute, or of the automatic fields (index, revision, study name,
  calculation name), and the database has exactly one row per index holding the same parameters' database
  values, with empty entries where a parameter set is incomplete, and the comma-joined host names of that write.
  Overwrite mode leaves, for the machines it writes, only the rows and directories of the new write.''',
  ['histories', 'inputs', 'configurations'],
  '''every history of writes; parameter sets that are nested lists, incomplete, or carry file values different
  from their database values; several machines and templates; custom study name, table, database and prefix names''',
  '''Tests inspect a handful of files for two fixed studies; agreement between the three outputs must hold for any
  parameter grid, machine set and history.''',
  ['batch.py', 'sql.py', 'common.py'],
  [('ParameterStudy.write_input', 'batch.py'), ('Calculation sql_record / sql_record_write', 'batch.py'), ('template_replace', 'common.py')])

p('C03', 'Study run scripts, exclusion list and backups match the write they belong to',
  '''Each machine's run script lists exactly the calculations of the most recent write, in index order, each
  entering its directory and submitting with that machine's command and job file and the requested pause.
  When exclusion is requested on an append, the exclusion list holds exactly the indices of all earlier
  revisions and nothing else, whatever the table is called. When backup is requested, the database and each machine's calculation directory as they were
  before the write are preserved unchanged under a fresh numbered name, and no earlier backup is touched.''',
  ['histories', 'configurations'],
  '''every history of append/overwrite writes with backup and exclusion on or off, any machines, sleep values and
  table names''',
  '''One fixed append is tested, with the default table name; that the script, the exclusion list and every
  backup refer to the right revision depends on the whole history.''',
  ['batch.py', 'common.py'],
  [('run_txt assembly', 'batch.py'), ('excl_push query', 'batch.py'), ('backup()', 'common.py')])

p('C04', 'Template files are rendered faithfully',
  '''Rendering a template replaces every occurrence of each selected key's placeholder by that key's value and
  changes no other byte: with no key selection all given keys whose placeholder occurs are used, with an explicit selection
  only those keys, and with an empty selection the file is copied verbatim. Floats are rendered with enough digits to
  recover the same double, booleans, integers and strings unchanged, and in database mode the file value
  is used rather than the database value.''',
  ['inputs', 'configurations'],
  '''every template text, placeholder scheme, key selection and value dictionary with Unix line ends for which no placeholder is contained in another one or in a replacement value''',
  '''Tests use three short templates; rendering must be exact for every text and for every combination of selection mode and value type.''',
  ['batch.py', 'common.py'],
  [('FileTemplate.write', 'batch.py'), ('template_replace, frepr', 'common.py')])

p('C05', 'Numbered backups preserve everything and overwrite nothing',
  '''Backing up an existing file, link or directory creates exactly one new sibling named with the smallest unused
  numeric suffix whose complete content equals the source at that moment; the source itself and every other
  existing entry are left unchanged. Backing up something that does not exist quietly does nothing.''',
  ['histories', 'inputs'],
  '''every sequence of edits, backups and deletions of earlier backups, for files and directory trees and any suffix prefix (paths without a trailing slash)''',
  '''The test makes a few backups in a row; gaps in the numbering, pre-existing names of another kind and nested trees are not sampled.''',
  ['common.py'],
  [('backup()', 'common.py')])

p('C06', 'Database column operations touch only the addressed cells',
  '''Adding a column never alters existing cells and is a no-op if the column exists. Filling a column writes the given values
  in order from the given row, replaces non-empty cells only when overwriting is allowed (and otherwise
  refuses), appends new rows past the end only when extension is allowed, and leaves every other cell
  unchanged; attaching a column is adding plus filling, and refuses an existing column unless overwriting.
  The list, array, dictionary and single-value query helpers return exactly the stored values in row order.
  Building a table from lists (makedb) stores exactly the given rows in order: in write mode in a fresh database, in
  append mode behind the existing rows of the same table, leaving columns not named NULL and every other cell and
  table unchanged, and refusing unknown columns and columns of another type without changing anything.''',
  ['histories', 'inputs'],
  '''every sequence of create/add/fill/attach/query/makedb operations over several tables of one database, with any start row, value list length and flags''',
  '''Tests walk through one fixed script per method; the interaction of start row, list length, extend and overwrite over histories is not covered.''',
  ['sql.py'],
  [('SQLiteDB.fill_column / attach_column / add_column', 'sql.py')],
  [('table', 'header and rows (rowid order)', 'sql.py')])

p('C07', 'Parameter grids enumerate every combination once, in loop order',
  '''Building a parameter grid from value lists yields every combination exactly once in nested-loop order (last list varies
  fastest), keeps values varied together grouped, and flattens each entry when requested without losing or reordering anything; reducing a grid to its unique rows keeps exactly one of each different row, in order of first occurrence.
  Turning lists into database columns or matrices preserves the values, gives every entry its column's name and type, and
  applies the database-value and file-value transformations only to the columns they were given for.''',
  ['inputs'],
  'every list of value lists (including empty, nested, zipped, and string-valued ones), with or without flattening and with any set of per-column transformations',
  'Tests compare two or three hand-written grids.',
  ['comb.py', 'sql.py', 'common.py'],
  [('nested_loops, unique2d', 'comb.py'), ('sql_column, sql_matrix', 'sql.py'), ('flatten', 'common.py')])

p('C08', 'Lazy attributes do not depend on the order of access',
  '''For objects whose attributes are produced by getters that depend on each other, the value of every attribute after any
  sequence of accesses is the same whatever the order; a getter that produced a value is not run again and never
  overwrites a value already set; an attribute whose getter finds nothing stays empty, and everything that
  requires it is then empty as well. The checking calls report set/unset truthfully and the asserting calls raise exactly when an attribute cannot be set.''',
  ['histories', 'programs'],
  'every acyclic dependency graph among getters, every initial assignment of values, and every sequence of try/check/assert/get operations',
  'Tests exercise one parser class in one order; the claim quantifies over dependency graphs and access orders.',
  ['base.py', 'decorators.py'],
  [('try_set_attr / check_set_attr / assert_set_attr', 'base.py'), ('lazyprop', 'decorators.py')])

p('C09', 'Unit conversion is applied exactly once to every quantity',
  '''The values of a structure or trajectory built from raw data are the raw data times the conversion factor of each quantity's own
  dimension (length for coordinates, cell and lattice lengths but not fractional coordinates or angles; energy, forces, stress, time and velocity likewise),
  applied exactly once no matter how often or in which order attributes are recomputed and without changing the raw data passed in, and quantities derived
  from others are consistent with the converted values. Slices, time steps and copies of a converted object are never converted again.''',
  ['histories', 'inputs'],
  'every subset of given quantities (coordinates Cartesian or fractional; pressure and volume derived, not given), every unit dictionary, and every history of recompute, copy, slice and step-extraction operations',
  'Tests convert one object once; double or missing conversion shows only for particular subsets and histories.',
  ['crys.py'],
  [('UnitsHandler.apply_units guarded by units_applied', 'crys.py'), ('set_all / _extend_arrays_apply_units', 'crys.py')],
  [('units_applied', 'whether the factors have been applied', 'crys.py')])

p('C10', 'Derived structure attributes are consistent with the primary data',
  '''Number of atoms, unique symbols, type numbering, species counts, atomic numbers, volume, lattice constants
  and pressure of a structure or trajectory are exactly the functions of its symbols, cell, coordinates and stress that their names promise, and Cartesian
  and fractional coordinates, and cell and lattice constants, given either one, describe the same geometry.
  Attributes given explicitly are never replaced, and what cannot be derived stays empty.''',
  ['inputs'],
  'every symbol sequence (including a single atom and repeated interleaved species) and every subset of primary data given, single structures and trajectories alike',
  'Tests check a couple of AlN-like structures with everything given.',
  ['crys.py'],
  [('Structure.get_* / Trajectory.get_*', 'crys.py'), ('coord_trans, cell2cc, cc2cell', 'crys.py')])

p('C11', 'Indexing, slicing and iterating a trajectory select exactly the right steps',
  '''Indexing a trajectory with a (possibly negative) integer gives the structure of exactly that step; slicing gives a
  trajectory containing exactly the selected steps in order, with time-independent attributes kept; in both cases every attribute
  present describes the same step. Iterating visits every step exactly once in order from the beginning, every time it is
  started, also after an abandoned or inside another iteration.''',
  ['histories', 'inputs'],
  'every trajectory length, subset of attributes, index or slice (negative, strided, reversed, empty), and every interleaving of iterations over the same object',
  'Tests use fixed slices of one trajectory and only complete iterations.',
  ['crys.py'],
  [('Trajectory.__getitem__/__iter__/__next__', 'crys.py')],
  [('iteration position', 'where an iterator over the trajectory stands', 'crys.py')])

p('C12', 'Concatenating, averaging and mixing trajectories keeps every attribute aligned',
  '''Concatenating structures and trajectories gives a trajectory whose steps are the inputs' steps in order, where an
  attribute is present exactly if every input has it and its value at each step is that of the corresponding
  input step. The time average has the arithmetic mean of each time-dependent attribute and keeps the others; mixing two structures interpolates linearly from
  the first to the second with the end points exact.''',
  ['inputs'],
  'every list of structures/trajectories with any lengths and any, possibly different, subsets of attributes; every set of mixing points',
  'Tests concatenate copies of one object with identical attributes.',
  ['crys.py'],
  [('concatenate, mean, mix', 'crys.py')])

p('C13', 'Copies are independent and library calls do not modify their arguments',
  '''A copy of a structure or trajectory, a single step extracted from one, a one-step trajectory made from a structure, and the results of supercell,
  concatenation, averaging, smoothing, mixing and alignment share no mutable data with the object they came from: changing one in place never
  changes the other. Geometry and analysis functions leave the arrays, lists and objects passed to them unchanged.''',
  ['histories', 'inputs'],
  'every object with any subset of attributes, every derivation chain, and every later in-place change',
  'Tests compare values right after the call and never mutate afterwards or check the inputs.',
  ['crys.py', 'num.py'],
  [('copy(), get_traj(), __getitem__', 'crys.py')])

p('C14', 'Saved objects come back identical',
  '''Writing an object with the pickle dump and reading it back gives an object with equal attributes. Writing a nested
  dictionary to an HDF5 file and reading it back gives the same keys and equal values with the same shape and type;
  writing to the same file in append mode keeps every existing entry and adds new ones, and never silently replaces an existing entry.''',
  ['histories', 'inputs'],
  'every dictionary of numbers, strings, lists and numeric arrays keyed by group/dataset paths in any spelling (leading/trailing slashes), and every sequence of write and append calls',
  'Tests write one fixed dictionary and one appended one.',
  ['io.py', 'base.py'],
  [('write_h5/read_h5/load_h5', 'io.py'), ('dump / read_pickle', 'base.py')])

p('C15', 'Supercells repeat every atom exactly once per cell image',
  '''A supercell with repetition counts (n1,n2,n3) has the cell vectors multiplied by those counts and contains, for every atom and
  every one of the n1*n2*n3 cell images, exactly one atom of the same symbol at the atom's position shifted by that lattice
  vector; per-atom data follow their atom. Atoms come one after another, each with its images in the order of the mask, which direc=-1 reverses. All construction methods, and the per-step construction of trajectories, agree.''',
  ['inputs', 'configurations'],
  'every cell (also non-orthogonal), atom list, repetition counts, direction of growth, construction method, single structures and trajectories',
  'Tests look at one 2-atom structure and a few fixed repetition counts.',
  ['crys.py'],
  [('scell, scell_mask', 'crys.py')])

p('C16', 'Interatomic distances obey the minimum image convention',
  '''Distances between atoms, with or without periodic boundary conditions, are the lengths of the Cartesian
  separation vectors whose fractional components are reduced, in the periodic case, to the range [-1/2,1/2); separation vectors,
  squared distances and angles returned alongside are those of the same vectors, for single structures and step by step for trajectories.
  The result does not depend on the number of threads nor on which implementation computes it.''',
  ['inputs', 'schedules', 'configurations'],
  'every cell (also non-orthogonal), fractional coordinates on any side of the cell, number of atoms and steps, thread counts',
  'Tests compare implementations with each other on a few random structures; boundary cases at exactly half a cell and thread-count dependence are not settled.',
  ['crys.py', 'num.py', 'src/_ext_src/flib.f90'],
  [('min_image_convention, distances, distances_traj, angles', 'crys.py'), ('distsq_frac, distances_traj (OpenMP)', 'src/_ext_src/flib.f90')])

p('C17', 'Nearest-neighbour search returns the atoms the selection promises',
  '''The neighbours of an atom are all other atoms within the cutoff, or the requested number of closest ones, excluding
  atoms of skipped species and the atom itself, in order of increasing distance when sorted; returned distances are those of the
  returned atoms. For trajectories the selection is made independently for every step.''',
  ['inputs', 'configurations'],
  'every configuration of atoms, central atom, cutoff (no distance exactly at it) or number, skip list (also one naming the central species), sorting and periodicity flags; the steps of a trajectory one by one',
  'Tests use one structure and two argument combinations.',
  ['crys.py'],
  [('nearest_neighbors, nearest_neighbors_from_dists, nearest_neighbors_struct', 'crys.py')])

p('C18', 'Radial pair distribution counts every pair once',
  '''The radial pair distribution of two atom selections counts each pair at its minimum-image distance in exactly one bin,
  averages over steps, never counts an atom with itself, and its number integral at each radius is the average number of second-selection
  atoms within that radius of a first-selection atom. It does not depend on atom order and giving the selections as masks, symbols or trajectories is equivalent.''',
  ['inputs', 'configurations'],
  'every structure or trajectory, selection pair (same, different, overlapping), bin width and maximal radius below half the smallest box height; pair distances not smaller than one bin width, fixed cell',
  'Tests compare with stored reference curves of two systems.',
  ['crys.py'],
  [('rpdf and its helper loops', 'crys.py')])

p('C19', 'Coordinate transformations are exact inverses and act step by step',
  '''Transforming coordinates from one basis to another describes the same physical points, for any position of the
  coordinate axis and for every time step with that step's own basis, and transforming back restores the input. Wrapping changes each fractional
  component only by a whole number and only along periodic directions, ending in [0,1); centring moves all atoms by one common vector so that the chosen atom
  is at the cell centre; aligning a cell keeps all lengths, angles and fractional coordinates, and Euler's matrix is the product of its three rotations.''',
  ['inputs'],
  'every invertible basis pair, array rank and axis, periodicity flags, chosen atom, single structures and trajectories',
  'Tests check one or two random arrays per function.',
  ['crys.py', 'num.py', 'src/_ext_src/flib.f90'],
  [('coord_trans, coord_trans3d, pbc_wrap, center_on_atom, align_cart', 'crys.py'), ('euler_matrix', 'num.py'), ('frac2cart/cart2frac(_traj)', 'src/_ext_src/flib.f90')])

p('C20', 'Cell descriptions convert into each other consistently',
  '''Cell matrix, lattice constants and PWscf-style cell parameters, each for one cell or per time step, convert into one another without changing
  lengths, angles or volume, and a Bravais lattice index gives the documented cell; the reciprocal cell satisfies b_i.a_j = 2*pi*delta_ij for right-handed cells; and a k-point
  grid for a given resolution has the number of points per direction that the reciprocal lengths demand,
  never less than one and even/odd as requested. Stress tensors and Voigt vectors convert into each other without loss. The angle between two
  vectors of any dimension is the one of their scalar product, parallel vectors included.''',
  ['inputs'],
  'every non-degenerate cell and sequence of cells, every resolution, stress tensor and flag combination',
  'Tests round-trip a few random cells.',
  ['crys.py', 'pwscf.py'],
  [('cell2cc, cc2cell, cc2celldm, celldm2cc, recip_cell, kgrid, tensor2voigt, angle', 'crys.py')])

p('C21', 'Arrays written as text are read back unchanged',
  '''Writing a 1d, 2d or 3d array to a text file and reading it back returns an array of the same shape with the
  same values, whichever axis the 3d array was cut along and also when dimensions have length one;
  comment lines and extra header text are ignored, and the stored shape and axis can be overridden explicitly.''',
  ['inputs', 'configurations'],
  'every non-empty array shape (including length-one dimensions), axis, comment character, header option and explicit shape/axis override; extra header text is further sections and options, free comment lines where shape and axis are given',
  'Tests round-trip one random array per rank with all dimensions longer than one.',
  ['arrayio.py', 'decorators.py'],
  [('writetxt, readtxt, arr2d_to_3d', 'arrayio.py')])

p('C22', 'Structure file writers describe the structure they were given',
  '''The xyz, axsf, cif, lammps and Wien2k writers produce files in which, read by the rules of each format, every atom appears once in order with the
  right symbol or type, position, cell and (where the format carries it) force, for each time step in order; reading a written cif file back with
  this library gives the same cell, symbols and coordinates.''',
  ['inputs'],
  'every structure and trajectory (any species order, cell, number of atoms and steps, forces present or absent)',
  'Tests write two structures and mostly check that the writers do not fail.',
  ['io.py', 'lammps.py', 'visualize.py'],
  [('write_xyz, write_axsf, write_cif, write_lammps, write_wien_sgroup', 'io.py')])

p('C23', 'PWscf output is parsed into the quantities it prints',
  '''Parsing a PWscf scf, md, relax or vc-run output file returns exactly the energies, forces, stress, coordinates, cell and
  per-step scalars printed for each step, in order and in the documented units for every coordinate and cell unit the file may declare, aligned so
  that all quantities of a step belong together; quantities the file does not contain come back empty.''',
  ['inputs'],
  'every output file of the documented layouts: any number of atoms and complete steps, any combination of present quantities, any declared unit',
  'Tests parse a few archived files.',
  ['parse.py'],
  [('PwSCFOutputFile, PwMDOutputFile, PwVCMDOutputFile', 'parse.py')])

p('C24', 'CPMD output is parsed into the quantities it prints',
  '''Parsing a CPMD single-point or molecular-dynamics output directory returns exactly the values printed in its files for each
  step, in order and in the documented units, whichever of the documented energy-column layouts and optional files are present and however many steps
  (also a single one) were written; quantities whose file is missing come back empty.''',
  ['inputs', 'configurations'],
  'every set of output files of the documented layouts (GEOMETRY present), any number of atoms and steps, restart markers anywhere in the trajectory file',
  'Tests parse a few archived directories.',
  ['parse.py'],
  [('CpmdSCFOutputFile, CpmdMDOutputFile', 'parse.py')])

p('C25', 'CP2K output is parsed into the quantities it prints',
  '''Parsing CP2K single-point, molecular-dynamics or relaxation output returns exactly the values printed in its files for each
  step, in order and in the documented units, from whichever of the documented files are present and however many steps
  (also a single one) were written; quantities whose file is missing come back empty.''',
  ['inputs', 'configurations'],
  'every set of output files of the documented layouts, any number of atoms and steps',
  'Tests parse a few archived directories.',
  ['parse.py'],
  [('Cp2kSCFOutputFile, Cp2kMDOutputFile, Cp2kRelaxOutputFile', 'parse.py')])

p('C26', 'LAMMPS output is parsed into the quantities it prints',
  '''Parsing LAMMPS log and dump output returns exactly the values printed for each step, in order and in the documented units, for any
  selection and order of thermo and dump columns; the cell follows from the printed box bounds and tilt factors, symbols from the
  symbols file, the type mapping or the echoed input, and quantities that are not printed come back empty.''',
  ['inputs', 'configurations'],
  'every log/dump file of the documented layout (numeric columns, Step first in thermo): column selections and orders, atoms, steps, tilt signs, several runs in one log',
  'Tests parse archived files with one column order.',
  ['parse.py', 'lammps.py'],
  [('LammpsTextMDOutputFile', 'parse.py')])

p('C27', 'All DCD readers agree and return what the file contains',
  '''Reading a DCD trajectory returns for every frame the stored coordinates and lattice constants (angles converted from
  cosines when requested), with the number of frames determined by the file content even if the header says otherwise; the numpy,
  reference and Fortran readers return the same data, and a truncated file is rejected (or, by
  the reference and Fortran readers, read up to its last complete frame), never misread.''',
  ['inputs'],
  'every well-formed DCD file (any number of frames and atoms, cp2k- or lammps-style angles) and every truncation of one',
  'Tests compare the readers on two archived files.',
  ['dcd.py', 'src/_ext_src/dcd.f90'],
  [('read_dcd_data, read_dcd_data_ref, read_dcd_data_f', 'dcd.py'), ('dcd.f90', 'src/_ext_src/dcd.f90')])

p('C28', 'Parsing one file never changes how another one is interpreted',
  '''The units and results of a parser object depend only on its own class, its file and the units the caller gave it: creating
  or using any other parsers before, in any order, never changes them - also not a parser which has read another file under the
  same name (a run repeated or continued in place) - and user-given units override the defaults for that object only.''',
  ['histories'],
  'every sequence of parser constructions and uses, over all parser classes and user unit dictionaries',
  'Each test process constructs few parser types and never compares different construction orders.',
  ['parse.py', 'crys.py'],
  [('default_units class dictionaries, UnitsHandler.update_units', 'parse.py')],
  [('default_units', 'class-level conversion tables', 'parse.py')])

p('C29', 'Cutting a run keeps exactly the steps before the cut and a backup of the rest',
  '''The cutting scripts for CPMD and CP2K runs remove from each output file exactly the records belonging to the
  given step and all later ones, keep every earlier record unchanged whatever the step numbers are, keep the
  original content of each changed file in a backup copy, and change nothing at all in simulation mode or for files not present.''',
  ['inputs', 'histories', 'configurations'],
  'every set of output files, print intervals, number of atoms and cut step (including steps whose digits occur in other numbers, the first and a nonexistent one)',
  'One cut of one archived run is tested for CPMD, none for CP2K.',
  ['bin/cut-cpmd.sh', 'bin/cut-cp2k.sh'],
  [('sed cut expressions', 'bin/cut-cpmd.sh'), ('sed cut expressions', 'bin/cut-cp2k.sh')])

p('C30', 'Array helpers operate along the requested axis only',
  '''Taking, putting, extending and summing along an axis, value matching, set membership masks, rounding up
  to positive multiples and vector sequences return exactly what the equivalent elementwise definition gives, for any rank, any
  positive or negative axis or set of axes and any slice, and leave all other elements untouched.''',
  ['inputs'],
  'every array rank and shape, axis (also negative), slice or index, keep-dimensions option and value list',
  'Tests sample one or two shapes per helper, mostly with non-negative axes.',
  ['num.py', 'comb.py'],
  [('slicetake, sliceput, extend_array, sum, match_mask, rms, vlinspace, order_similar, unique2d', 'num.py')])

p('C31', 'Table and grid forms of multi-dimensional data always agree',
  '''Converting tabulated data a(x1,..,xk)=y to its grid form and back, and holding 2d scalar data as axes, double-loop columns or
  grids, always yields mutually consistent forms: each value stays attached to its coordinates. After replacing some
  of the data in such a container all forms describe the new data, and copies are independent.''',
  ['histories', 'inputs'],
  'every grid of distinct axis values (ascending ones for tables), every choice of given form, and every sequence of updates and copies',
  'Tests construct containers once in each form and never update the coordinates.',
  ['mpl.py', 'num.py'],
  [('Data2D._update', 'mpl.py'), ('DataND', 'num.py')])

p('C32', 'Correlation functions are the same for every implementation and thread count',
  '''The autocorrelation of a signal, and the (mass-weighted) velocity autocorrelation of a trajectory, equal the
  sums of products over all time origins at each lag, normalised to one at lag zero where requested, for every method,
  language and thread count; velocities from coordinates are the finite differences they are documented to be.''',
  ['inputs', 'configurations', 'schedules'],
  'every signal and trajectory length (including one and two steps), masses, method, normalisation and thread count',
  'Tests compare methods on one random signal.',
  ['signal.py', 'pydos.py', 'crys.py', 'src/_ext_src/flib.f90'],
  [('acorr', 'signal.py'), ('pyvacf, fvacf', 'pydos.py'), ('vacf, acorr', 'src/_ext_src/flib.f90'), ('velocity_traj', 'crys.py')])

p('C33', 'Signal padding, mirroring, smoothing and peak finding are well-behaved',
  '''Padding adds exactly the requested zeros at the requested end of the requested axis and never alters data; mirroring is symmetric
  about the first element along the requested axis; smoothing returns the input's shape, reproduces constants exactly and any data for a delta
  kernel, and treats parallel channels independently; the peak finder returns exactly the interior strict local maxima above the threshold.''',
  ['inputs', 'configurations'],
  'every shape, axis, pad mode, kernel length (even, odd, longer than the data), edge mode and threshold',
  'Tests sample one or two arrays per function.',
  ['signal.py'],
  [('pad_zeros, mirror, smooth, find_peaks', 'signal.py'), ('smooth', 'crys.py')])

p('C34', 'Calculator instances do not influence each other and track their inputs',
  '''The parameters of a calculator object are the class defaults overridden by its own keyword arguments only: creating or reconfiguring one
  calculator never changes the defaults or another instance's input. The input file written reflects the structure and settings of that
  object, an existing label directory is backed up or kept as requested, and a new calculation runs exactly when the structure or settings changed.''',
  ['histories'],
  'every sequence of constructing, reconfiguring and using calculators of the supported codes',
  'Tests create one calculator per code and need the external programs.',
  ['calculators.py', 'common.py'],
  [('CalculatorBase.init_params_from_input, fill_infile_templ, write_input', 'calculators.py')])

p('C35', 'Tag timers measure each tag independently',
  '''For any interleaving of timer calls over any tags, the printed duration for a tag is the difference between the last completed pair of
  clock readings of that tag alone; the third start of a tag begins a new measurement; printing a running measurement stops it, and printing an unknown tag raises an error.''',
  ['histories'],
  'every sequence of start/stop/print calls over several tags, silent or not',
  'The test makes one fixed sequence and does not check the durations.',
  ['timer.py'],
  [('TagTimer.t / pt', 'timer.py')])

p('C36', 'Random structures satisfy the constraints they are generated under',
  '''A generated random structure has the requested symbols in order, a cell whose lengths, angles and volume lie in the
  configured ranges, fractional coordinates in [0,1), and no two atoms closer (with periodic images) than the scaled sum of their covalent
  radii; if the number of attempts is exhausted the generator raises its dedicated error instead of returning a structure that violates a constraint.''',
  ['inputs', 'configurations'],
  'every symbol list, scale setting, attempt limit and random stream',
  'Tests generate a handful of easily satisfiable structures and do not check the constraints.',
  ['random.py', 'src/_ext_src/flib.f90'],
  [('RandomStructure', 'random.py')])

p('C37', 'Quantum ESPRESSO input text and auxiliary files convert faithfully',
  '''The atomic-positions, species and k-point strings written for PWscf list every atom or entry once in order with values that read back equal; reading phonon
  frequency, mode and dynamical-matrix files returns for each q-point exactly the printed frequencies and vectors in order;
  k-paths visit the given special points in order with the given number of points per segment, and cumulative path lengths add up.''',
  ['inputs'],
  'every atom list, grid, number of q-points, modes and atoms, and every list of special points',
  'Tests read one archived file per reader.',
  ['pwscf.py', 'kpath.py', 'common.py'],
  [('atpos_str, atspec_str, kpoints_str*, read_matdyn_*, read_dyn, read_dynmat', 'pwscf.py'), ('kpath, get_path_norm', 'kpath.py')])

p('C38', 'Convergence tables and text conversion helpers are exact',
  '''A convergence table lists for every point the difference to the last (or next) value of each quantity, with the original values
  and absolute differences on request, and the last row's difference is zero; converting sequences, slices, booleans, Fortran floats, dictionaries and nested lists
  to and from text or flat form loses nothing and reports what it cannot convert. Files read back as last written, paths resolve against the current and the home directory,
  configurations and classes made from dictionaries hold what was put in, independently of each other.''',
  ['inputs', 'configurations', 'histories'],
  'every value table, mode and flag combination; every sequence, slice, number and nesting; every history of writing and reading text files',
  'Tests check a few examples per helper.',
  ['batch.py', 'common.py'],
  [('conv_table', 'batch.py'), ('seq2str, str2seq, toslice, tobool, ffloat, flatten, dict2str, file_read, file_write, fullpath, add_to_config, dict2class', 'common.py')])

p('C39', 'Interpolation, radial-basis and polynomial fits reproduce their data',
  '''A fit or interpolator which can represent the data (polynomials of sufficient degree, splines and bisplines of polynomials) is that polynomial: values, derivatives,
  extrema and roots, for every scale, input form, shape and dtype; one which interpolates (splines, nearest, linear, Clough-Tocher, unregularised radial basis networks) returns
  the data at the points, constant and zero data included. A regularised network satisfies data - fit = r * weight; its gradient is the derivative of what it predicts; fit errors
  and cross-validation errors are mean squared residuals of models trained on the other points; a grid search returns the best point of the grid; the caller's arguments stay
  as they are. Fits which don't reach the promised accuracy and data of the wrong shape are refused.''',
  ['inputs'],
  'every data set, kernel/degree and regularisation',
  'Tests fit a few smooth functions; accuracy over all data sets is a numerical-analysis question.',
  ['num.py', 'src/pwtools/rbf/core.py'],
  [('Interpol2D, PolyFit, Spline', 'num.py'), ('Rbf', 'src/pwtools/rbf/core.py')])

p('C40', 'Thermodynamics and equations of state obey their defining relations',
  '''Vibrational energy, free energy, entropy and heat capacity of any phonon density of states are the integrals of the harmonic oscillator's functions at each
  temperature: finite for every positive temperature, with the zero-point energy and no entropy in the limit T -> 0, normalised to a requested area, modes without positive frequency
  left out with skipfreq. The Gibbs energy is F + PV at every grid point; from data which the fits can represent the minimum over the cell axes, its volume, axes, bulk modulus,
  thermal expansions and heat capacity at every temperature and pressure are those of that function, properties which do not exist are None. An equation-of-state fit returns the parameters which generated
  the data, and pressure, bulk modulus at any volume and derivatives are those of the fitted curve; data without a minimum inside are refused. An external
  fit program gets the data in its units and its results come back in Angstrom, eV and GPa. Debye/Einstein expansion and thermostat masses follow their formulas.''',
  ['inputs', 'configurations'],
  'every density of states, temperature and pressure grid, cell variation grid, volume/energy data',
  'Tests compare against archived reference curves for one density of states and one grid of each kind.',
  ['thermo.py', 'eos.py', 'mttk.py'],
  [('HarmonicThermo, Gibbs, expansion', 'thermo.py'), ('EosFit, ElkEOSFit', 'eos.py'), ('fictitious masses', 'mttk.py')])

p('C42', 'The phonon density of states is the power spectrum of the velocities',
  '''For any velocities, masses, padding and time step the full spectrum is the sum over atoms (weighted by mass) and directions of the squared modulus
  of the Fourier transform of the zero-padded, optionally Welch-windowed velocities -- equally the transform of the mirrored, normalised velocity autocorrelation
  function, so both methods agree. The frequency axis belongs to the padded length and the time step, the returned half is the
  full spectrum up to normalisation of its integral to the requested area, and the reference Fourier transforms agree with the fast one along any axis.''',
  ['inputs', 'configurations'],
  'every velocity array (at least four steps), masses or none, padding factor, power-of-two padding, window, mirroring, area and time step',
  'Tests compare both methods on one random trajectory.',
  ['pydos.py', 'signal.py', 'num.py'],
  [('pdos, direct_pdos, vacf_pdos', 'pydos.py'), ('dft, fft_1d_loop, ezfft, welch, mirror, pad_zeros', 'signal.py'), ('norm_int', 'num.py')])

p('C43', 'Structures handed to ASE and spglib and back describe the same crystal',
  '''Handing a structure to ASE or spglib and taking it back keeps symbols, cell, positions and periodicity; two structures
  compare as the same exactly if symbols, cell geometry and fractional coordinates agree. However a crystal is described (supercell, skewed cell, shifted origin, reordered atoms), its
  primitive cell holds the same crystal (volume, species counts, neighbour distances) without further translations, and its space group does not change.''',
  ['inputs', 'configurations'],
  'every structure and trajectory step, periodic directions, and every redescription of a crystal',
  'Tests convert one structure and find the primitive cell of one supercell.',
  ['crys.py', 'symmetry.py', 'atomic_data.py'],
  [('get_ase_atoms, get_spglib, get_fake_ase_atoms, struct2atoms, atoms2struct', 'crys.py'), ('spglib2struct, struct2spglib, spglib_get_primitive, spglib_get_spacegroup, is_same_struct', 'symmetry.py')])

p('C41', 'Crystal structure files are read as they are written',
  '''Reading a cif file returns the cell constants, atom symbols and fractional or Cartesian coordinates of the requested data block (the first one by default), whatever
  the column order, with standard uncertainties in parentheses and numbering or charges of atom labels removed. Reading a
  pdb file returns the symbol and position of every atom record in order and the cell constants if the file gives them, and no cell otherwise.''',
  ['inputs'],
  'every cif file with one or several data blocks and every pdb file in column layout, with any number of atoms',
  'Tests parse three archived files.',
  ['parse.py', 'regex.py'],
  [('CifFile, PDBFile', 'parse.py')])

p('C44', 'Digital filters pass their bands and nothing else',
  '''A filter designed as low-pass, high-pass, band-pass or band-stop passes frequencies inside its pass bands unchanged in amplitude and
  suppresses those outside, up to the ripple and transition width of its window or of the requested Kaiser design, whatever the unit of
  frequency. Applying it is the causal convolution with its taps along the requested axis: shape kept, channels independent, input unchanged,
  no memory between calls or filters; the reported frequency response is the one of the filter. Incomplete designs and unknown modes are refused.''',
  ['inputs', 'configurations', 'histories'],
  'every mode, cutoff, number of taps or ripple and width, window, frequency unit, signal shape and axis, several filters in use in any order',
  'There is no test for filters at all.',
  ['signal.py'],
  [('FIRFilter', 'signal.py')])

p('C45', 'Viewers and external commands get what was asked for and leave nothing behind',
  '''Viewing a structure or trajectory calls the viewer's program exactly once, with its options followed by a file which holds exactly the object in the
  viewer's format, the output going to the log file. Afterwards no file and no open file descriptor is left, unless files are to be kept (both are there then,
  under the given names if any); in the background the call returns while the viewer is running and its files stay. The object is not changed (missing symbols are
  set), viewers for single structures refuse trajectories before anything is written or called, a failing program raises. The output of a shell command
  is returned completely, or an exception raised if it wrote error messages; the first existing program of a list is found.''',
  ['histories', 'configurations', 'fault_sequences'],
  'every sequence of viewer calls in foreground and background, object, viewer, option, kept or given file names, failing programs',
  'There is no test for the viewers: they need programs with a window.',
  ['visualize.py', 'common.py', 'calculators.py'],
  [('ViewFactory, view_*', 'visualize.py'), ('system, backtick', 'common.py'), ('find_exe', 'calculators.py')])

p('C46', 'Plot containers draw what they are given and change nothing else',
  '''A set of plots has one figure of its own per name, in the given order, with the given size and projection, and inconsistent arguments are refused. Legends list the
  labelled lines and bars of exactly the axes asked for, in order, on the axis asked for; stacked 3d curves, axis colours, additional axis lines (label, ticks, offset,
  place, margin), saved files and colour transitions are what was asked for; a dispersion plot has one curve per band, its special points at their path lengths, the density of states on its side; every other plot, axis and legend stays as it was.''',
  ['histories', 'configurations'],
  'every sequence of plot creation, twin axes, lines, legends, colours, 3d curves, additional axis lines and saves, over several plots in use together',
  'The one test only makes empty figures and needs a DISPLAY.',
  ['mpl.py', 'kpath.py'],
  [('Plot, prepare_plots, collect_legends', 'mpl.py'), ('plotlines3d, color_ax, clean_ax3d', 'mpl.py'), ('new_axis, make_axes_grid_fig', 'mpl.py'), ('plot_dis', 'kpath.py')])

p('C47', 'Command line converters describe the same crystal in every format',
  '''Each format which cif2any.py, cif2sgroup.py and pdb2cif.py write (PWscf in three units, ABINIT, CPMD, CP2K, sgroup, cif) describes the crystal of the input file: same cell
  up to orientation, same atoms with their symbols, types, atomic numbers, masses and positions, correct counts, reciprocal cell and k-point grids, in that program's units, however converters are
  chained and the files are named; solvate.sh adds the requested molecules and changes nothing else. A phonon density of states gets a header with its number of atoms and frequency axis and is otherwise copied unchanged, and a dispersion is
  plotted with one curve per band over the length of the path.''',
  ['inputs', 'configurations', 'histories'],
  'every crystal (cell shape, number and order of atoms, species), file name, column order and chain of converters',
  'There is no test for any of the scripts.',
  ['bin/cif2any.py', 'bin/cif2sgroup.py', 'bin/pdb2cif.py', 'bin/matdyn2fqha.py', 'bin/plot_dispersion.py', 'bin/solvate.sh'],
  [('whole script', 'bin/cif2any.py'), ('whole script', 'bin/pdb2cif.py'), ('whole script', 'bin/matdyn2fqha.py')])

p('C48', 'Constants, units and the periodic table agree with nature and with each other',
  '''Every constant and conversion factor has its CODATA value, converting a quantity through any chain of units and back depends on the first and last unit only, and the constants
  obey the physical relations between them. Symbols, atomic numbers, masses and covalent radii of all elements are those of the periodic table, and the tables of the package agree
  with each other.''',
  ['histories', 'inputs'],
  'every chain of conversion factors, every constant, every element',
  'The tests compare a few constants and no element.',
  ['src/pwtools/constants.py', 'src/pwtools/atomic_data.py'],
  [('module constants', 'src/pwtools/constants.py'), ('symbols/masses/numbers/covalent_radii/pt', 'src/pwtools/atomic_data.py')])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for x in P:
        f.write(json.dumps(x) + '\n')
import re
for x in P:
    n = len(re.findall(r'[.!?](?:\s|$)', x['statement']))
    if n > 3: print(x['id'], 'sentences', n)
print(len(P))
