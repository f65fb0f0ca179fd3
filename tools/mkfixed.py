import json, subprocess
FX = """C03 53db38d|write_input with an exclusion list read the exclusion/backup information from a fixed file name instead of the study's own table
C05 e970ff7|backup() of x when x0 is a dangling symlink wrote through the link to its target
C04 fa990ae|FileTemplate.write(sql_record, keys=[]) raised TypeError
C02,C04 56d5937|Calculation appended the machine's jobfile template to the caller's template list, so later calculations got it twice
C06 875b441|fill_column/attach_column on a table without rows raised
C38 ef07556|toslice('1:3'), tobool('true'), ffloat('1D3') rejected str or failed
C12 0ab220f|concatenate of inputs where only some have an attribute failed or misaligned it
C11 2c3eac8|a second (or nested) iteration over a Trajectory continued where the first one stopped
C10,C32 b4565e7|Trajectory with timestep and 1 or 2 steps failed on .velocity/set_all
C13 27c8d16|tr[i] shared arrays with the trajectory
C13 62ca911|concatenate([tr]) and mean(tr) shared arrays with their input
C13 8cd6681|rpdf wrapped the caller's trajs list and amask in place
C14 61b7bd4|after write_h5 failed on a key the file stayed open (and locked)
C14 bc3125f|arrays of strings came back from hdf5 as bytes objects
C17 145923d|nearest_neighbors(idx=...) with coincident atoms/masks left out the wrong atom or kept the central one
C20 6fd3b0f|kgrid(even=True, minpoints odd) gave odd numbers
C20 8915e12|angle() gave different last digits (and flaky results) depending on memory alignment
C19 175b0c9|coord_trans3d with timeaxis=-1 used the wrong axis
C19 f5eacee|coord_trans of integer coordinates truncated the result to integers
C19 dace123|pbc_wrap_coords mapped -1e-17 to 1.0, outside [0,1)
C21 6c2fc21|writetxt/readtxt of shapes with a dimension of length one lost it
C21 a1ab331|readtxt ignored header_maxlines/header_comment for the shape header
C22 60fc47b|write_cif produced a cif with an invalid symmetry loop under PyCifRW 4
C41 fa3e2e4|CifFile(block=...) looked up the block by the wrong name
C41 f5847a1|PDBFile without CRYST1 record failed although documented
C28 c96b6d8|units given to one PWscf parser changed the class-wide defaults of all parsers
C28 514adf9|same for CPMD, CP2K and LAMMPS parsers
C28 70a39c0|a second get_struct()/get_traj() of the same parser applied the units again
C23 a69326a|PWscf md parser raised or returned empty arrays for quantities not in the file
C23 e1e9cf8|temperature had one value too many: starting temperature counted as step
C23 02a4152|ATOMIC_POSITIONS without unit was not read
C24 8b1203b|ENERGIES with one step was read as 1d and failed
C24 6beaf7b|ekin was ECLASSIC (column 5) and not the kinetic energy
C25 8cef096|cell, ener, stress files with one step were read as 1d and failed
C25 de6d210|SCF output without stress failed
C25 a040d8f|relax runs: forces had a different number of steps than coords and etot
C26 f52d866|cell of an orthogonal box (two bounds per line) failed
C26 c5fec67|log without thermo output failed
C26 3a84f86|dump without type mapping failed
C29 fe3f9fc|cut-cpmd.sh only cut where a file had exactly the given step
C29 09ea240|same for cut-cp2k.sh
C30 39c6c13|sliceput indexed with a list (error in current numpy)
C30 89dd332|num.sum with negative axes in a tuple, or keepdims, summed the wrong axes or failed
C30 3d13005|order_similar ignored order= for the first point and repeat > 1
C31 710af93|Data2D.update(...) left grids and columns of the old data
C32 53dc3ef|velocity_traj on integer coordinates truncated velocities
C33,C42 214c83e|fft_1d_loop with axis=-2 transformed the wrong axis
C33,C42 ee8c5f6|mirror ignored axis
C33 8b35c6c|find_peaks compared the left neighbour with ymin
C33 8c7670f|find_peaks failed to refine a peak near the start
C33 916a1dd|smooth with a kernel longer than the data padded with zeros
C33 514b558|crys.smooth of integer data truncated the result
C34 9ef4499|keywords of one calculator instance changed the class defaults of all
C34 97d57b0|pseudopotential of Ca used for C (prefix match)
C34 ce0cdf7|default label and command were not used
C34 11b5dc4|calc.set() after a calculation returned old results / old input file
C34 3f8acb4|Lammps input named files relative to the current directory
C34,C37 595d4e7|k-point line of arrays/tuples printed brackets; shifts given twice
C34 5f34640|Lammps read 'lmp.out.dump' of the default label
C34 6346051|after a failed run partial results of it were returned
C36 b2838ec|RandomStructure raised ValueError/returned NaN for impossible random angles
C36 d2387c2|atoms close to each other through periodic images other than the nearest fractional one were accepted
C37 13953c3|SpecialPointsPath(ks, symbols=...) as documented failed
C37 fa9db4d|read_matdyn_freq returned uninitialised rows for an incomplete file
C13 d7f43f7|results of smooth, mix and align_cart shared symbols, mass etc. with their input
C39 7a02151|polyfit of constant values or a constant coordinate returned NaN (scale=True)
C39 b9f6a51|PolyFit1D raised AttributeError for the documented (npoints,1) points
C39 238ff76|Rbf of data which is zero everywhere returned NaN
C39 03343a4|fit_opt(method='brute', what='p') with finish=None raised IndexError
C39,C13 b22a080|fit_opt removed x0, disp, bounds, ranges from the caller's opt_kwds
C39 32330d2|polyfit(scale_vand=True) raised LinAlgError or returned NaN for a coordinate which is zero everywhere
C40 a212f0a|HarmonicThermo.fvib/svib returned inf/nan at low temperature (sinh overflows) instead of the zero-point energy / 0
C40 1e7b9d2|EosFit accepted data whose minimum lies beyond the largest volume (operator precedence), the fit was arbitrary
C40 fb79dab|EosFit.bulkmod(V) returned B(V0) for every V
C40 0fd0647|Gibbs with an unknown case raised NameError
C40 9ed38ee|Gibbs.calc_G raised AssertionError for total energies of ordinary size: G was fitted in K, Spline checks an absolute accuracy of 1e-10
C40 b545bb6|ExternEOS with an unknown bv_method raised NameError
C08 3b82982|Trajectory with a cell (or cryst_const) of one step and no coordinates raised AssertionError, two steps work
C04,C02 77d695f|rendering a template file (FileTemplate.write, file_template_replace) turned its \\r\\n and \\r into \\n
C33 6dd1bf0|find_peaks with an x axis raised AssertionError for peaks higher than about 1e6 (absolute accuracy of the spline)
C39 edd9bd8|get_min, get_max, get_root, invsplev of a fit on a small x scale (1e-9, say) stopped anywhere in the bracket: absolute tolerance of 2e-12
C44 072b28e|FIRFilter raised TypeError for every filter (scipy keyword nyq is gone), for mode='bandstop' UnboundLocalError with any scipy
C45 8845845|viewer(obj, bg=True) or wait=False raised NotImplementedError and left its temporary files; every call left two file descriptors open
C46 7b72f3a|plotlines3d raised for a 1d z array
C46 b3bdb7b|clean_ax3d raised AttributeError for the w_xaxis attributes
C46 cf458ea|new_axis raised AttributeError for every axes
C21 8f6f8f7|readtxt and friends raised TypeError for gzipped text files
C46 a600be3|plot_dis raised for a path without special points
C46 f9294a4|plot_dis ignored ylim for the frequency axis
C47 f559e8d|cif2any.py printed the abinit znucl once per atom instead of once per type
C47 e1fa024|solvate.sh printed its usage and did nothing for a file name with -h in it
C47 04bfbdd|solvate.sh removed the first instead of the last .pdb from the name of its output
C48 ca8b984|element 117 missing in the tables, so that numbers and pt gave 117 for Uuo
C20 adea6b0|crys.angle raised ValueError for some parallel vectors""".split('\n')
log = dict(l.split(' ', 1) for l in subprocess.run(['git','-C','/repo','log','--oneline'],capture_output=True,text=True).stdout.splitlines())
fixed, seen = [], set()
for l in FX:
    a, what = l.split('|'); ids, h = a.split(' ')
    assert log[h].startswith('fix:'), h
    seen.add(h)
    for i in ids.split(','): fixed.append('fixed: property=%s %s %s' % (i, h, what))
miss = [h for h, m in log.items() if m.startswith('fix:') and h not in seen]
assert not miss, miss
k = json.load(open('known_findings.json')); k['fixed'] = fixed
json.dump(k, open('known_findings.json', 'w'), indent=1); open('known_findings.json','a').write('\n')
