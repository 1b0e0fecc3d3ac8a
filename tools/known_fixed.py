import subprocess
log=subprocess.check_output(['git','-C','/repo','log','--format=%h %s']).decode().splitlines()
m={'memory of curved-sky cov':'P31','refuse shallow copies':'P20','parity sign':'P01','Wigner-3j buffers':'P01','purification with lmax_mask':'P01','purification terms in the coupling':'P01','decouple_cell':'P02','elements outside all bandpowers':'P06','refuse to update':'P03','reading damaged':'P05','FKP normalisation of workspaces':'P03','shared between':'P04','native error messages':'P05','singular coupling':'P20','flat-sky simulations reproducible':'P25','honour the seed':'P25','Nyquist':'P25','inconsistent permutations':'P05','log-factorial':'P01','gaps between':'P09','minimum and maximum':'P08','refuse negative multipole':'P08','conjugate Fourier modes in flat-sky spectra':'P22','conjugate Fourier modes in flat-sky cov':'P07','flat-sky purification with non-square':'P13','flat-sky mask apodization':'P16','templates that vanish':'P10','refuse flat-sky cov':'P07','single bandpower':'P29','full precision of the patch':'P04','interpolation accelerators':'P23','beams sampled beyond':'P02','number of mode pairs':'P07','HEALPix disc queries':'P15','radii of HEALPix':'P15','noise deprojection bias of purified':'P12','deprojection bias of fields correlated':'P12','pixel ordering of rectangular':'P12','compare rectangular map':'P17','rounding of the default':'P17','several turns':'P17','order of the anisotropic':'P26','odd total spin':'P26','joint T-E-B':'P26','zero l_toeplitz':'P18','Toeplitz covariances of purified':'P18','keep exact elements':'P18','refuse NaN as default':'P27','refuse FKP norm':'P30','non-native byte order':'P21','copy the beams of fields':'P21','refuse empty masks':'P20','spectra without multipoles':'P20','simulations without pixels':'P20','refuse workspaces for other spins':'P20','refuse negative spins':'P20','refuse flat-sky apodization types':'P20','negative bandpower widths':'P20','refuse transposed variance':'P20','masks atomically':'P19','prefactor of linear bandpowers':'P08'}
out=[]
for l in reversed(log):
    h,t=l.split(' ',1)
    if not t.startswith('fix:'): continue
    k=[v for q,v in m.items() if q in t]; assert len(k)==1,(t,k)
    out.append('fixed: property=%s %s %s'%(k[0],h,t[5:]))
s=open('/verif/known_findings.txt').read()
s='\n'.join(x for x in s.splitlines() if not x.startswith('fixed:'))
open('/verif/known_findings.txt','w').write(s.rstrip()+'\n'+'\n'.join(out)+'\n')
