"""What each property's check runs."""
CLAUSES_ALWAYS = ['no-exception', 'trace-not-explained', 'library-unusable', 'well-formed-result']

MODELS = {
    'MeshCache': dict(module='MeshCache', cfg='MeshCache.cfg'),
    'MeshCacheSim': dict(module='MeshCache', workers=1, cfg='MeshCacheSim.cfg', args=('-simulate', 'num=%d', '-depth', '12', '-seed', '%seed')),
    'Orient': dict(module='Orient', cfg='Orient.cfg', workers=8),
    'Patches': dict(module='Patches', cfg='Patches.cfg', workers=4),
    'MergeGrid': dict(module='MergeGrid', cfg='MergeGrid.cfg', workers=4),
}
MODELS['Clip'] = dict(module='Clip', cfg='Clip.cfg', workers=4)
MODELS['MeshCacheSim']['num'] = (20, 400)

M = dict(driver='d_mesh', module='MeshTrace')
SUITES = {
    'cache': dict(M, fn='cache', gen='MeshCache', n=(0, 0), reps=(1, 12), per=40),
    'history': dict(M, fn='cache', gen='MeshCacheSim', n=(220, 6000), per=30),
    'xform': dict(M, fn='xform', n=(900, 6000), per=60),
    'integ': dict(M, fn='integ', n=(420, 6000), per=40),
    'merge-grid': dict(M, fn='merge', gen='MergeGrid', n=(1600, 0), per=200),
    'merge-mesh': dict(M, fn='merge', n=(600, 4000), per=60),
    'heal-enum': dict(M, fn='healn', gen='Orient', n=(0, 0), reps=(1, 8), per=80),
    'heal-rnd': dict(M, fn='healn', n=(420, 5000), per=60),
    'topo-enum': dict(M, fn='topo', gen='Patches', n=(0, 0), reps=(1, 6), per=80),
    'topo-rnd': dict(M, fn='topo', n=(480, 5000), per=60),
    'clean': dict(M, fn='clean', n=(1000, 9000), per=60),
    'build': dict(M, fn='build', n=(1000, 7000), per=60),
    'alias': dict(M, fn='alias', n=(240, 3000), per=40),
}

C = dict(driver='d_clip', module='ClipTrace')
SUITES.update({
    'clip-enum': dict(C, fn='enum', gen='Clip', n=(0, 0), reps=(1, 20), per=100),
    'clip-rnd': dict(C, fn='rnd', n=(640, 12000), per=40),
})
H = dict(driver='d_hydro', module='HydroTrace')
SUITES.update({
    'hydro': dict(H, fn='rnd', n=(600, 8000), per=25),
    'disp': dict(H, fn='disp', n=(900, 8000), per=35),
    'full': dict(H, fn='full', n=(420, 3000), per=10),
})
MODELS['Plane'] = dict(module='Plane', cfg='Plane.cfg', workers=4, cfg_thorough='PlaneDeep.cfg')
P_ = dict(driver='d_plane', module='PlaneTrace')
SUITES.update({
    'plane-enum': dict(P_, fn='enum', gen='Plane', n=(1500, 30000), per=150),
    'plane-rnd': dict(P_, fn='rnd', n=(1000, 20000), per=60),
})
MODELS['Rot'] = dict(module='Rot', cfg='Rot.cfg', workers=4, cfg_thorough='RotDeep.cfg')
R_ = dict(driver='d_rot', module='RotTrace')
SUITES.update({
    'rot-enum': dict(R_, fn='enum', gen='Rot', n=(0, 16000), per=220),
    'rot-rnd': dict(R_, fn='rnd', n=(3000, 40000), per=190),
})
MODELS['Inertia'] = dict(module='Inertia', cfg='Inertia.cfg', workers=4, cfg_thorough='InertiaDeep.cfg')
MODELS['Solids'] = dict(module='Solids', cfg='Solids.cfg', workers=4, cfg_thorough='SolidsDeep.cfg')
I_ = dict(driver='d_inertia', module='InertiaTrace')
SUITES.update({
    'inertia-enum': dict(I_, fn='enum', gen='Inertia', n=(0, 16000), per=110),
    'inertia-rnd': dict(I_, fn='rnd', n=(1500, 20000), per=80),
    'solids-enum': dict(I_, fn='solids_enum', gen='Solids', n=(0, 0), per=8),
    'solids-rnd': dict(I_, fn='solids_rnd', n=(700, 6000), per=20),
})
MODELS['FormatGen'] = dict(module='FormatGen', cfg='FormatGen.cfg', workers=4, cfg_thorough='FormatGenDeep.cfg')
F_ = dict(driver='d_format', module='FormatTrace')
SUITES.update({
    'format-enum': dict(F_, fn='enum', gen='FormatGen', n=(0, 0), reps=(1, 6), per=500),
    'format-rt': dict(F_, fn='rt', n=(840, 20000), per=70),
    'format-big': dict(F_, fn='big', n=(8, 64), per=1),
    'format-refuse': dict(F_, fn='refuse', n=(8, 80), per=4),
})
MODELS['Cli'] = dict(module='Cli', cfg='Cli.cfg', workers=4, cfg_thorough='CliDeep.cfg')
MODELS['CliSim'] = dict(module='Cli', workers=1, cfg='CliSim.cfg', args=('-simulate', 'num=%d', '-depth', '34', '-seed', '%seed'), num=(160, 20000))
L_ = dict(driver='d_cli', module='CliTrace')
SUITES.update({
    'cli-enum': dict(L_, fn='enum', gen='Cli', n=(700, 16000), per=80),
    'cli-long': dict(L_, fn='enum', gen='CliSim', n=(240, 8000), per=40),
    'cli-rnd': dict(L_, fn='rnd', n=(760, 12000), per=40),
    'cli-bad': dict(L_, fn='bad', n=(168, 3000), per=60),
    'cli-sub': dict(L_, fn='sub', n=(8, 200), per=4),
})
SUITES.update({                       # the same scenarios, fewer: what P20 looks at in the other parts of the library
    'inertia-alias': dict(I_, fn='rnd', n=(240, 6000), per=80),
    'plane-alias': dict(P_, fn='rnd', n=(160, 5000), per=40),
    'rot-alias': dict(R_, fn='rnd', n=(160, 5000), per=80),
    'format-alias': dict(F_, fn='rt', n=(130, 2600), per=33),
    'disp-alias': dict(H, fn='disp', n=(24, 600), per=6),
    'full-alias': dict(H, fn='full', n=(12, 300), per=4),
})
QUERYCL = ['areas', 'normals', 'centers', 'triangles-ids', 'quadrangles-ids', 'counts', 'integrals', 'volume-.*', 'solid-.*', 'shell-.*', 'vertex-.*',
           'face-faces', 'boundaries', 'nb-boundaries.*', 'closedness', 'bbox', 'squared-bbox', 'edge-.*', 'face-view', 'is-triangle', 'query-shape-.*',
           'inertia-fields', 'conformal-.*', 'quality-.*', 'shown-.*', 'saved-.*']
PROPS = {
    'P01': dict(suites=['cache', 'history'], clauses=QUERYCL,
                must=['areas', 'normals', 'centers', 'integrals', 'volume-exact', 'shell-inertia', 'vertex-vertex', 'face-faces', 'boundaries', 'closedness'],
                bounds='all cache presences x all operations (design model exhaustive), replayed on random meshes of up to ~60 faces; simulated histories of 11 steps'),
    'P02': dict(suites=['xform'], clauses=['vertices-moved-by-map', 'faces-kept', 'faces-reversed', 'vertices-kept', 'rotation-matrix-returned',
                                            'holds-what-it-was-given'], must=['vertices-moved-by-map', 'faces-reversed', 'rotation-matrix-returned']),
    'P03': dict(suites=['integ'], clauses=['areas', 'normals', 'centers', 'integrals', 'volume-.*', 'solid-.*', 'shell-.*', 'inertia-fields', 'query-shape-.*',
                                            'counts', 'triangles-ids', 'quadrangles-ids', 'edge-.*', 'bbox', 'squared-bbox', 'quality-.*'],
                must=['areas', 'normals', 'centers', 'integrals', 'volume-exact', 'solid-mass', 'solid-cog', 'solid-inertia', 'shell-mass', 'shell-cog', 'shell-inertia',
                      'edge-min', 'quality-areas', 'bbox']),
    'P05': dict(suites=['merge-grid', 'merge-mesh'], clauses=['merge-.*'], must=['merge-never-joins-distant', 'merge-identical-vertices-become-one',
                'merge-map-renumbers-faces', 'merge-separated-clusters-become-one']),
    'P06': dict(suites=['heal-enum', 'heal-rnd'], clauses=['heal-normals-.*', 'vertices-kept', 'normals', 'face-faces', 'boundaries', 'volume-.*'],
                must=['heal-normals-consistent', 'heal-normals-outward', 'heal-normals-only-reverses']),
    'P07': dict(suites=['topo-enum', 'topo-rnd'], clauses=['vertex-.*', 'face-faces', 'boundaries', 'nb-boundaries.*', 'closedness', 'conformal-.*', 'query-shape-.*'],
                must=['vertex-vertex', 'vertex-faces', 'face-faces', 'boundaries', 'closedness', 'nb-boundaries-zero-iff-closed',
                      'conformal-unless-collapsed-boundary']),
    'P08': dict(suites=['clean'], clauses=['unused-.*', 'heal-triangles-.*', 'heal-mesh-.*', 'degenerate-.*', 'vertices-kept', 'counts', 'face-view'],
                must=['unused-only-used-remain', 'heal-triangles-same-corners', 'degenerate-exactly-removed', 'heal-mesh-keeps-the-surface', 'heal-mesh-outward']),
    'P09': dict(suites=['build'], clauses=['triangulate-.*', 'symmetrize-.*', 'add-.*', 'extract-.*', 'vertices-kept', 'counts', 'areas', 'face-view', 'closedness'],
                must=['triangulate-first-diagonal', 'symmetrize-faces-and-images', 'symmetrize-seam-shared', 'add-faces-of-both', 'extract-map']),
    'P10': dict(suites=['clip-enum', 'clip-rnd'], clauses=['clip-(?!source|results).*', 'partition-.*', 'refused-.*'],
                must=['clip-each-face-exactly-its-part-below', 'clip-cut-points-exact', 'clip-nothing-else', 'partition-crown', 'refused-naming-the-side']),
    'P11': dict(suites=['clip-enum', 'clip-rnd'], clauses=['waterline-.*', 'closed-demanded-.*'],
                must=['waterline-each-edge-once', 'waterline-watertight-all-closed', 'waterline-number-of-contours', 'closed-demanded-holds',
                      'closed-demanded-fails-only-if-open', 'waterline-lines-maximal']),
    'P12': dict(suites=['hydro'], clauses=['hydro-(?!results).*', 'report-.*'],
                must=['hydro-volume', 'hydro-wet-area', 'hydro-buoyancy-centre', 'hydro-waterplane-centre', 'hydro-extents', 'hydro-metacentric-radii',
                      'hydro-metacentric-heights', 'hydro-stiffness', 'hydro-inertias', 'report-shows-data']),
    'P13': dict(suites=['disp'], clauses=['displacement-.*', 'equilibrium-inputs-unchanged'], must=['displacement-reached', 'displacement-clear-report']),
    'P14': dict(suites=['full'], clauses=['full-.*', 'equilibrium-inputs-unchanged'], must=['full-displacement-reached', 'full-buoyancy-under-gravity']),
    'P18': dict(suites=['plane-enum', 'plane-rnd'], clauses=['plane-.*'],
                must=['plane-normal', 'plane-normal-unit', 'plane-scalar', 'plane-angles-rebuild-normal', 'plane-distance', 'plane-projection',
                      'plane-frame-third-is-distance', 'plane-frame-isometry', 'plane-edge-refused', 'plane-edge-on-plane', 'plane-edge-on-edge']),
    'P19': dict(suites=['rot-enum', 'rot-rnd'], clauses=['rotation-.*'],
                must=['rotation-same', 'rotation-quaternion-unit', 'rotation-axis-unit', 'rotation-matrix-proper', 'rotation-held-along-the-chain']),
    'P04': dict(suites=['inertia-enum', 'inertia-rnd'], clauses=['inertia-.*'],
                must=['inertia-matrix', 'inertia-symmetric', 'inertia-moments-and-products', 'inertia-objects-share-nothing', 'inertia-gravity-center']),
    'P21': dict(suites=['solids-enum', 'solids-rnd'], clauses=['solid-shape-.*'], must=['solid-shape-mass', 'solid-shape-moments']),
    'P15': dict(suites=['format-rt', 'format-big'], clauses=['written-.*', 'readback-.*', 'caller-arrays-unchanged'],
                must=['written-vertices', 'written-faces', 'readback-vertices', 'readback-faces', 'readback-facets', 'readback-corners', 'caller-arrays-unchanged',
                      'readback-sizes']),
    'P16': dict(suites=['format-enum', 'format-rt', 'format-big', 'format-refuse'],
                clauses=['load-.*', 'cut-file-refused', 'damaged-file-refused', 'unknown-.*', 'missing-.*', 'unwritable-.*', 'nothing-written', 'known-extensions', 'written-.*'],
                must=['load-vertices', 'load-faces', 'load-corners', 'cut-file-refused', 'damaged-file-refused', 'unknown-format-refused', 'missing-file-refused', 'unwritable-format-refused',
                      'written-layout', 'written-no-symmetry', 'written-normals']),
    'P17': dict(suites=['cli-enum', 'cli-long', 'cli-rnd', 'cli-bad', 'cli-sub'], clauses=['cli-.*', 'harness-.*', 'written-.*'],
                must=['cli-carried-out', 'cli-files-written', 'cli-input-unchanged', 'cli-refused', 'cli-nothing-written', 'written-vertices', 'written-faces',
                      'cli-solid-printed', 'cli-shell-printed', 'cli-info-printed', 'cli-hydrostatics-printed', 'cli-hydro-centres', 'cli-hydro-dimensions', 'cli-hydro-lpp',
                      'cli-hydro-stability', 'cli-hydro-stiffness', 'cli-hydro-inertias', 'cli-displacement-reached', 'cli-report-file',
                      'cli-mediums-listed']),
    'P20': dict(suites=['alias', 'clip-rnd', 'hydro', 'inertia-alias', 'plane-alias', 'rot-alias', 'format-alias', 'disp-alias', 'full-alias'],
                clauses=['only-the-target-changes', 'inertia-arguments-unchanged', 'inertia-objects-share-nothing', 'plane-arguments-unchanged',
                         'plane-earlier-normal-unchanged', 'rotation-arguments-unchanged', 'caller-arrays-unchanged', 'clip-source-unchanged', 'clip-results-share-nothing', 'hydro-inputs-unchanged', 'hydro-results-share-nothing', 'equilibrium-inputs-unchanged', 'copy-equal', 'holds-what-it-was-given'] + QUERYCL, must=['only-the-target-changes', 'inertia-objects-share-nothing', 'inertia-arguments-unchanged', 'plane-arguments-unchanged',
                      'plane-earlier-normal-unchanged', 'rotation-arguments-unchanged', 'caller-arrays-unchanged', 'clip-source-unchanged', 'clip-results-share-nothing',
                      'hydro-inputs-unchanged', 'hydro-results-share-nothing', 'equilibrium-inputs-unchanged']),
}
