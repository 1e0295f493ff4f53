"""KNOWN_FINDINGS.txt from the list below (commit found by its subject)."""
import subprocess
F=[('P03','surface integrals of the products','the shell products of inertia (and the integrals of yz, xz, xy) of any mesh were wrong: triangle (0,0,0),(0,1,0),(0,0,1) gave 0 for the integral of yz instead of 1/24'),
('P01','scalings drop cached','scale/scalex/scaley/scalez kept surface integrals cached without face properties: get_surface_integrals(); scale(2); get_surface_integrals()'),
('P01','heal_triangles drops','heal_triangles kept triangle ids and connectivity cached: triangles_ids; heal_triangles(); triangles_ids'),
('P01','remove_degenerated_faces drops','remove_degenerated_faces kept the connectivity of the removed faces'),
('P01','merge_duplicates drops','merge_duplicates kept integrals and face properties of the unmerged vertices'),
('P06','heal_normals no longer','heal_normals removed entries from the cached face connectivity (ff wrong, second call raised KeyError) and decided outwardness with stale normals'),
('P01','flip_normals drops','flip_normals kept boundaries running the old way'),
('P07','a mesh with an edge','an open mesh whose faces around the opening are inconsistently oriented was reported closed'),
]
import json,os
x='/verif/tools/findings_extra.json'
if os.path.exists(x): F+= [tuple(i) for i in json.load(open(x))['fixed']]
log=[l.split(' ',1) for l in subprocess.run(['git','-C','/repo','log','--format=%h %s'],capture_output=True,text=True).stdout.splitlines()]
out=['# Genuine defects of LHEEA/meshmagick found by the checks.',
'# "fixed:" entries were repaired in /repo and suppress nothing; "known:" entries are reported as KNOWN-FINDING.','']
for p,sub,what in F:
    c=[h for h,s in log if s.startswith('fix:') and sub in s]
    assert len(c)==1,(sub,c)
    out.append('fixed: property=%s %s %s'%(p,c[0],what))
if os.path.exists(x):
    for p,m,what in json.load(open(x)).get('known',[]): out.append('known: property=%s match=%s %s'%(p,m,what))
open('/verif/KNOWN_FINDINGS.txt','w').write('\n'.join(out)+'\n')
