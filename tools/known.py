#!/usr/bin/env python3
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = """82b9bb5 C01,C03 arrays were synchronised by comparing hashes, so edits with equal hashes (-1 and -2) left stale views
737ac0f C06 hopping indices became floating-point when a modifier only overwrote terms
264da52 C08,C10 scaling factor was estimated from the already rescaled Hamiltonian
2535e45 C10 signed on-site energies were used in the estimate of the spectral bound
2288636 C09 Peierls phase of the symmetric gauge was wrong
8bf1485 C08 on-site energies initialised after rescaling ignored the scaling factor
10b97bb C08 an incomplete set of saved hopping arrays was loaded and mixed with the model
53e32cb C02 removing several orbitals with one invalid index removed the others
c41d7fb C03 a locked inter-hopping accepted removals
29dfaf6 C02 HopDict stored an on-site matrix which it rejected
920cf8c C02 vacancies were changed by a rejected call
04e9f5b C05 negative orbital index was accepted in the super-cell representation
9b63141 C01 a hopping dictionary could not be used for several cells
141ed96 C02 a hopping dictionary with an invalid term was added in part
9b7f828 C04 Hamiltonian buffer of a solver was not reallocated when the number of orbitals changed
a34cfe2 C14 failure with more processes than tasks
7ed8c7a C14,C16 polarization was summed over processes repeatedly
e0d3ae4 C15,C16 coordinates given as lists were not accepted
28acd31 C15 rotation of integer coordinates truncated the result
c00c9c7 C20 spin texture was not updated when the cell changed
737851b C11 reshaping missed orbitals of the new cell
2c31910 C11 merging cells with different 'extended' was not detected
c7f758f C11 merging modified the source cells
d903dc4 C11 out-of-range inter-hopping orbitals were accepted when merging
4dc27bf C19 Wannier90 degeneracies were ignored
1f522bc C19 Wannier90 terms moved to the same cell overwrote each other
d98c700 C08 saving wrote only the initialised arrays, so loading mixed arrays of different scaling factors
cf4f263 C05 modifying the result of orb_id_sc2pc changed the numbering of the super cell
ea26082 C08 interrupted saving over older data left a mixture of old and new arrays, which was loaded
f4cfd30 C02,C03 a failed construction of a super cell or sample left its parts locked
f78ee56 C20 Z2 phases were evaluated with outdated arrays after the model changed
78178b2 C17 the AC correlation function was zero at time zero
40766b2 C17 Haydock recursion gave NaN when the subspace was exhausted
1b7cf6c C17 fewer than 3 Bessel functions made the propagation read outside the array
d2dafe8 C20 Wilson loops were closed with non-periodic eigenstates, Z2 counts depended on orbital positions
47adb40 C21 make_graphene_rect ignored the length of the c-axis when reshaping
0f6b608 C21 rectangular graphene was no folding of the hexagonal cell for complex hopping integrals
3443a70 C22 plot_wfc3d without rn_max raised TypeError
32fd261 C22 plot_scalar scrambled images with different numbers of points along x and y
1d8f3e0 C22 cube files had zero at the nucleus of s orbitals
46e9bb3 C24 ParamFit failed for integer weights
fc7f089 C24 ParamFit.fit failed with full_output
0ea3a6e C24 undefined parameters of DC_conductivity and quasi_eigenstates were accepted
762683a C20 phases which wind around the circle more than once were not followed
fae03b1 C20 crossings at points on the reference value were not counted"""
out = []
for l in T.split("\n"):
    h, p, w = l.split(" ", 2)
    for i in p.split(","):
        out.append(dict(property=i, status="fixed", commit=h, what=w, line=f"fixed: property={i} {h} {w}"))
json.dump(out, open(os.path.join(V, "known_findings.json"), "w"), indent=1)
