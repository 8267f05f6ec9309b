"""Write list of fixed and known defects."""
import os, subprocess

FIXED = {
'keep lattice vectors shared with others when standardizing coupling': 'C26',
'refuse frequency sampling on given communicator only': 'C28',
'refuse incomplete irreducible q points': 'C28',
'read names of empty namelists': 'C20',
'read units of lengths in Wannier90 input files': 'C20',
'read k points preceding mesh size in Wannier90 input files': 'C20',
'skip comments and blank lines in blocks of Wannier90 input files': 'C20',
'skip comments and blank lines in cards of PWscf input files': 'C20',
'write strings with backslashes or mixed quotation marks to namelists': 'C20',
'read elements of multidimensional arrays in namelists': 'C20',
'read repeat counts in namelists': 'C20',
'read doubled quotation marks in namelist strings': 'C20',
'calculate integration weights for integer sample points': 'C21',
'allow integer arguments of Heaviside delta functions': 'C15',
'respect positions of orbitals in long-range coupling of supercells': 'C06',
'do not count long-range force constants twice in molecular dynamics': 'C18',
'correct Hessian of all q points by acoustic sum of q = 0': 'C18',
'let stored dynamical matrices follow reordered and shifted atoms': 'C14',
'make interpolate_dynamical_matrices run again': 'C08',
'do not modify displacements passed to MD driver': 'C26',
'interpolate Brillouin-zone data for angles other than 120 degrees': 'C23',
'show whole Brillouin zone of rotated square lattice': 'C23',
'do not truncate interpolated integers in plots': 'C23',
'colorbar at lower edge of image': 'C23',
'do not change colormap': 'C23',
"order of band indices of coupling in tetrahedron method": "C25",
    "sign of wave vector in dynamical matrix of graphene": "C24",
'lattice vectors from left-handed mass-spring supercell': 'C05',
'keep units when mapping tight-binding model back to unit cell': 'C05',
'set documented supercell vectors of electron-electron interaction': 'C06',
'standardize and map models without nonzero elements': 'C05',
'sum over repeated lattice vectors when mapping models to and from supercell': 'C05',
'do not modify atomic positions shared with other objects': 'C05',
'bond lengths of rearranged force constants': 'C05',
'standardize coupling with growing number of electronic lattice vectors': 'C06',
'discard previously sampled q point when replacing real-space coupling': 'C07',
'discard previously sampled q point when correcting acoustic sum': 'C07',
'do not overwrite input when squaring coupling': 'C07',
'wait until sampled coupling has been written to shared memory': 'C02',
'do not multiply long-range sparse coupling with number of processes': 'C01',
'wait until supercell coupling has been written to shared memory': 'C02',
'read array data with Python 3': 'C08',
'standardize models without lattice vectors using threshold': 'C05',
'apply acoustic sum rule to coupling irrespective of division by masses': 'C06',
'apply acoustic sum rule to coupling without nonzero elements': 'C07',
'linearly interpolate array-valued data': 'C12',
'rotate displacements of each atom': 'C01',
'renormalize orbital coupling beyond density-density terms': 'C16',
'share order of bands with all processes': 'C01',
'synchronize shared memory in MD driver': 'C02',
'calculate Fermi-surface average of coupling for dense matrices': 'C18',
'transform Coulomb interaction without MPI': 'C01',
'agree on shared memory if number of processes differs between nodes': 'C01',
'read origin of data grid from cube file': 'C08',
'append isoline segment along edge of triangle': 'C17',
'identify crossing points on opposite edges of mesh': 'C17',
'find crossing points on edges despite rounding errors': 'C17',
'calculate grand potential for low temperatures': 'C16',
'sum over negative Matsubara frequencies too': 'C16',
'allow for array of frequencies including zero': 'C16',
'accept list of q points as documented': 'C16',
'accept any irreducible q points as list': 'C04',
'do not truncate atom symbols in force-constants files': 'C08',
'distinguish equal symbols with different masses in force-constants files': 'C08',
'write effective charges so that they are read again': 'C08',
'allow for single unit cell along some direction in RESPACK data': 'C08',
'resize nonperiodic data to single point': 'C12',
'do not truncate resized integer data': 'C12',
'Fourier-interpolate complex and array-valued data': 'C12',
'order bands on whole mesh with shared memory or without broadcast': 'C01',
'adopt convention for masses from phonons with long-range terms': 'C14',
'save MD driver with sparse matrices': 'C18',
'derive forces from free energy with excited carriers': 'C18',
'write NumPy scalars and lists to input files in Fortran format': 'C20',
'do not change lattice constants passed to primitives': 'C19',
'size of square Brillouin zone outline': 'C19',
'consider third dimension in test for point on path': 'C19',
'read Wannier90 input independent of delimiter and case': 'C20',
'write Wannier90 input without optional blocks': 'C20',
'read matdyn.x input with slashes in file names or without q points': 'C20',
'read units of PWscf input cards in any kind of brackets': 'C20',
'read VASP structure without selective dynamics': 'C20',
'consider scaling factor of VASP structure': 'C20',
'order of data written in XCrySDen format': 'C21',
'find extremum of parabola through points passed as arguments': 'C21',
'read namelists with exclamation or other quotation marks in strings': 'C20',
'read namelists with spaces around array indices': 'C20',
'read parameters of Wyckoff positions': 'C20',
'read energies from PW output without Fermi level': 'C22',
'allow for array of band indices in energy contributions': 'C22',
'read charge density for any Bravais lattice and number of grid points': 'C22',
'sort bands by their own average energy': 'C13',
'read VASP structure with separate blocks of same element': 'C20',
'return completed data as documented': 'C11',
'read charge density with title or without Bravais-lattice index': 'C22',
'skip bands below offset when reading coupling': 'C22',
}

KNOWN = [
*['property=C18 case=two_drivers:{"f":"2fd","order":%s} excited carriers of '
    'two MD drivers share the splitting of their chemical potentials '
    '(attribute d of two_fermi_dirac), which is that of the driver '
    'diagonalized last' % order for order in ('[0,1]', '[1,0]', '[0,1,0]')],
]

if __name__ == '__main__':
    here = os.path.dirname(os.path.abspath(__file__))
    log = subprocess.check_output(['git', '-C', '/repo', 'log', '--reverse',
        '--format=%h %s']).decode().splitlines()
    with open(os.path.join(here, 'KNOWN_FINDINGS.txt'), 'w') as f:
        for line in log:
            commit, subject = line.split(' ', 1)
            if subject.startswith('fix: '):
                f.write('fixed: property=%s %s %s\n' % (FIXED[subject[5:]],
                    commit, subject[5:]))
        for line in KNOWN:
            f.write('known: %s\n' % line)
