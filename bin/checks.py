# What decides each property: drivers (harness/*.cpp), the specification operator that must admit every record they
# produce, and the specifications that are model-checked (and, with 'gen', generate behaviours to replay).
def D(src, module, accepts, **kw):
    return dict(src=src, module=module, accepts=accepts, **kw)


CHECKS = {
    'C01': {'drivers': [D('c01.cpp', 'Predicates', 'PredAccepts')], 'mc': [dict(module='PredMC.tla', cfg='PredMC.cfg', thorough_cfg='PredMC4.cfg')]},
    'C02': {'drivers': [D('c02.cpp', 'Segments', 'SegAccepts')], 'mc': [dict(module='SegMC.tla', cfg='SegMC.cfg', thorough_cfg='SegMC4.cfg')]},
    'C03': {'drivers': [D('c03.cpp', 'Segments', 'LineAccepts')], 'mc': [dict(module='SegMC.tla', cfg='SegMC.cfg', thorough_cfg='SegMC4.cfg')]},
    'C04': {'drivers': [D('c04.cpp', 'Boxes', 'BoxAccepts')], 'mc': [dict(module='BoxMC.tla', cfg='BoxMC.cfg', thorough_cfg='BoxMC4.cfg')]},
    'C05': {'drivers': [D('c05.cpp', 'Polygons', 'PipAccepts')], 'mc': [dict(module='PolyMC.tla', cfg='PolyMC.cfg', thorough_cfg='PolyMC5.cfg')]},
    'C26': {'drivers': [D('c26.cpp', 'Polygons', 'MeasureAccepts')], 'mc': [dict(module='PolyMC.tla', cfg='PolyMC.cfg', thorough_cfg='PolyMC5.cfg')]},
    'C06': {'drivers': [D('c06.cpp', 'Triangles', 'TriAccepts')], 'mc': [dict(module='TriMC.tla', cfg='TriMC.cfg', thorough_cfg='TriMC3.cfg')]},
    'C07': {'drivers': [D('c07.cpp', 'Distances', 'DistAccepts')], 'mc': [dict(module='DistMC.tla', cfg='DistMC.cfg', thorough_cfg='DistMC3.cfg')]},
    'C08': {'drivers': [D('c08.cpp', 'SeqDist', 'SeqAccepts')], 'mc': [dict(module='DistMC.tla', cfg='DistMC.cfg', thorough_cfg='DistMC3.cfg')]},
    'C09': {'drivers': [D('c09.cpp', 'Grids', 'GridAccepts', script='hash')], 'mc': [dict(module='HashGridMC.tla', cfg='HashGridMC.cfg', thorough_cfg='HashGridMC5.cfg', gen='hash')]},
    'C10': {'drivers': [D('c10.cpp', 'Grids', 'WalkAccepts')], 'mc': [dict(module='WalkMC.tla', cfg='WalkMC.cfg', thorough_cfg='WalkMC2.cfg')]},
    'C11': {'drivers': [D('c11.cpp', 'Floods', 'FloodAccepts', script='flood')], 'mc': [dict(module='FloodMC.tla', cfg='FloodMC.cfg', thorough_cfg='FloodMC2.cfg'), dict(module='FloodGen.tla', cfg='FloodGen.cfg', thorough_cfg='FloodGen4.cfg', gen='flood')]},
    'C12': {'drivers': [D('c12.cpp', 'KdTree', 'KdAccepts')], 'mc': [dict(module='KdMC.tla', cfg='KdMC.cfg', thorough_cfg='KdMC4.cfg')]},
    'C13': {'drivers': [D('c13.cpp', 'Bsp', 'BspAccepts', script='bsp')], 'mc': [dict(module='BspMC.tla', cfg='BspMC.cfg', thorough_cfg='BspMC3.cfg'), dict(module='BspLocateMC.tla', cfg='BspLocateMC.cfg', thorough_cfg='BspLocateMC5.cfg'), dict(module='BspGen.tla', cfg='BspGen.cfg', thorough_cfg='BspGen4.cfg', gen='bsp')]},
    'C14': {'drivers': [D('c14.cpp', 'Solid', 'SolidAccepts')], 'mc': [dict(module='SolidMC.tla', cfg='SolidMC.cfg', thorough_cfg='SolidMC5.cfg')]},
    'C15': {'drivers': [D('c15.cpp', 'Dcel', 'DcelAccepts', script='dcel')], 'mc': [dict(module='DcelMC.tla', cfg='DcelMC.cfg', thorough_cfg='DcelMC6.cfg', gen='dcel')]},
    'C16': {'drivers': [D('c16.cpp', 'Sweep', 'SweepAccepts', script='sweep')], 'mc': [dict(module='SweepMC.tla', cfg='SweepMC.cfg', thorough_cfg='SweepMC4.cfg', gen='sweep')]},
    'C17': {'drivers': [D('c17.cpp', 'Paths', 'PathAccepts', script='path')], 'mc': [dict(module='PathMC.tla', cfg='PathMC.cfg', thorough_cfg='PathMC3.cfg', gen='path')]},
    'C18': {'drivers': [D('c18.cpp', 'PolyRel', 'RelAccepts', script='ring')], 'mc': [dict(module='RelMC.tla', cfg='RelMC.cfg', thorough_cfg='RelMC5.cfg', gen='ring')]},
    'C19': {'drivers': [D('c19.cpp', 'Meshes', 'MeshAccepts', script='mesh')], 'mc': [dict(module='MeshMC.tla', cfg='MeshMC.cfg', thorough_cfg='MeshMC3.cfg', gen='mesh')]},
    'C20': {'drivers': [D('c20.cpp', 'Cover', 'CoverAccepts', script='cover')], 'mc': [dict(module='CoverMC.tla', cfg='CoverMC.cfg', thorough_cfg='CoverMC5.cfg', gen='cover')]},
    'C21': {'drivers': [D('c21.cpp', 'Angles', 'AngAccepts')], 'mc': [dict(module='AnglesMC.tla', cfg='AnglesMC.cfg', thorough_cfg='AnglesMC3.cfg')]},
    'C23': {'drivers': [D('c23.cpp', 'Policies', 'PolAccepts')], 'mc': [dict(module='PoliciesMC.tla', cfg='PoliciesMC.cfg', thorough_cfg='PoliciesMC16.cfg')]},
    'C24': {'drivers': [D('c24.cpp', 'Circles', 'CircAccepts')], 'mc': [dict(module='CirclesMC.tla', cfg='CirclesMC.cfg', thorough_cfg='CirclesMC4.cfg')]},
    'C25': {'drivers': [D('c25.cpp', 'Convex', 'ConvexAccepts')], 'mc': [dict(module='ConvexMC.tla', cfg='ConvexMC.cfg', thorough_cfg='ConvexMC5.cfg')]},
    'C22': {'drivers': [D('c22.cpp', 'Algebra', 'AlgAccepts', parts='alg', flags=['-DNDEBUG']), D('c22b.cpp', 'Algebra', 'MatAccepts', flags=['-DNDEBUG'])],
            'mc': [dict(module='AlgebraMC.tla', cfg='AlgebraMC.cfg', thorough_cfg='AlgebraMC2.cfg'), dict(module='AlgebraGen.tla', cfg='AlgebraGen1.cfg', gen='alg')]},
    'C27': {'drivers': [D('c27.cpp', 'Fixed', 'FixAccepts', script='fix')], 'mc': [dict(module='FixedMC.tla', cfg='FixedMC.cfg', thorough_cfg='FixedMC4.cfg', gen='fix')]},
    'C28': {'drivers': [D('c28.cpp', 'Offsets', 'OffsetAccepts', script='offset')], 'mc': [dict(module='OffsetMC.tla', cfg='OffsetMC.cfg', thorough_cfg='OffsetMC4.cfg', gen='offset')]},
    'C29': {'drivers': [D('c29.cpp', 'Frames', 'FramesAccepts', script='frames')], 'mc': [dict(module='FramesMC.tla', cfg='FramesMC.cfg', gen='frames'), dict(module='FramesMC.tla', cfg='FramesMC4.cfg', tier='thorough')]},
    'C30': {'drivers': [D('c30.cpp', 'Containers', 'ContAccepts', script='cont')], 'mc': [dict(module='ContainersMC.tla', cfg='ContainersMC.cfg', gen='cont'), dict(module='ContainersMC.tla', cfg='ContainersMCH.cfg', tier='thorough')]},
    'C31': {'drivers': [D('c31.cpp', 'Tagged', 'TaggedAccepts', script='tag')], 'mc': [dict(module='TaggedMC.tla', cfg='TaggedMC.cfg', gen='tag'), dict(module='TaggedMC.tla', cfg='TaggedMC3.cfg', tier='thorough')]},
    'C32': {'drivers': [D('c32.cpp', 'Draws', 'DrawsAccepts', script='draws')], 'mc': [dict(module='DrawsMC.tla', cfg='DrawsMC.cfg', gen='draws'), dict(module='DrawsMC.tla', cfg='DrawsMCV.cfg', thorough_cfg='DrawsMCV4.cfg')]},
    'C33': {'drivers': [D('c33.cpp', 'Memo', 'MemoAccepts', script='memo')], 'mc': [dict(module='MemoMC.tla', cfg='MemoMC.cfg', gen='memo'), dict(module='MemoMC.tla', cfg='MemoMC4.cfg', tier='thorough')]},
    'C34': {'drivers': [D('c34.cpp', 'Kinds', 'KindsAccepts', script='kinds'), D('c34b.cpp', 'Kinds', 'KindsAccepts', script='kinds')], 'mc': [dict(module='KindsMC.tla', cfg='KindsMC.cfg', gen='kinds'), dict(module='KindsMC.tla', cfg='KindsMC3.cfg', tier='thorough')]},
    'C35': {'drivers': [D('c35.cpp', 'Units', 'UnitsAccepts', script='units'), D('c35b.cpp', 'Units', 'UnitsAccepts', script='units'), D('c35c.cpp', 'Units', 'UnitsAccepts')], 'mc': [dict(module='UnitsMC.tla', cfg='UnitsMC.cfg', gen='units'), dict(module='UnitsMC.tla', cfg='UnitsMC3.cfg', tier='thorough')]},
}
