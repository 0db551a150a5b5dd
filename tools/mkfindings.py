import subprocess
log=subprocess.check_output(['git','-C','/repo','log','--reverse','--format=%h\t%s'],text=True).splitlines()
M=[('by_id slice ending in a gap','C01'),('by_id slice on a collection without','C01'),('same train index twice','C01'),
('select({source','C02'),('raise the TypeError for unknown','C02'),("selecting all keys with '*'",'C02'),('union() included','C02'),
('file containing no trains','C03'),('get_dask_array raised','C03'),('get_array raised ZeroDivision','C03'),
('trains() included empty','C04'),('get_data_counts failed for control','C05'),('get_series & get_data_counts','C05'),('get_series dropped data','C05'),
('arrays without data had no','C06'),('write() failed if a control','C06'),('control data was read by train position','C06'),
('virtual files of data opened by relative','C07'),('cache file was unreadable','C10'),('writing its cache failed','C10'),
('atomic_dump left','C11'),("module's file lacked some",'C12'),('negative pulse numbers','C12'),('pulses in arbitrary order','C12'),('one of the modules had no data','C12'),
('writing a virtual CXI','C13'),('slicing a StackView','C14'),('StackView accepted','C14'),('missing modules of signed','C14'),
('AGIPD geometry from quadrant','C20'),('data_coords_to_positions failed','C15'),('CrystFEL geometry files with very small','C17'),('coffset in','C17'),
('validating a run without an up','C18'),('validating a file without trains','C18'),('validation failed with an exc','C18'),('validation missed','C18'),
('numpy booleans, or','C19'),('feeding the streamer','C19'),('serve_files did not','C19'),('karabo-bridge-serve-files','C19')]
out=["# Genuine defects found in karabo_data. 'fixed' entries were repaired in /repo and suppress nothing.",
     "# finding: property=<id> <part>:<signature>   would list defects which are not repaired (none at present)."]
used=set()
for l in log:
    h,s=l.split('\t')
    if not s.startswith('fix:'): continue
    m=[(k,p) for k,p in M if k in s]; assert len(m)==1,(s,m); used.add(m[0][0])
    out.append('fixed: property=%s %s %s'%(m[0][1],h,s[5:]))
assert len(used)==len(M),set(k for k,_ in M)-used
open('/verif/known_findings.txt','w').write('\n'.join(out)+'\n')
