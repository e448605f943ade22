"""Executes VertexBasedP1DGLimiter; traces for SlopeLimiter.tla."""
import drv
from vf import dec
from fractions import Fraction as F
import numpy
import random
from thetis import *
from thetis.limiter import VertexBasedP1DGLimiter

cache = {}


def setup(m):
    key = str(m)
    if key in cache:
        return cache[key]
    nx, ny = m['cells']
    mesh2d = RectangleMesh(nx, ny, float(F(m['lx'])), float(F(m['ly'])), quadrilateral=m['quad'], diagonal=m['diag'])
    if m['layers']:
        mesh = ExtrudedMesh(mesh2d, layers=m['layers'], layer_height=1.0/m['layers'])
    else:
        mesh = mesh2d
    fam = 'DQ' if m['quad'] else 'DG'
    if m['layers']:
        sp = get_functionspace(mesh, 'DG', 1, 'DG', 1)
        vsp = get_functionspace(mesh, 'DG', 1, 'DG', 1, vector=True)
    else:
        sp = get_functionspace(mesh, fam, 1)
        vsp = get_functionspace(mesh, fam, 1, vector=True)
    cg = FunctionSpace(mesh, 'CG', 1)
    cache[key] = (mesh, sp, vsp, cg, mesh.coordinates.dat.data_ro.copy())
    return cache[key]


def cells(space, mesh):
    """node numbers of every cell (all layers of an extruded mesh)"""
    m = space.cell_node_map()
    v = m.values
    if mesh.layers is None:
        return [list(map(int, r)) for r in v]
    out = []
    for r in v:
        for k in range(mesh.layers - 1):
            out.append([int(x) for x in r + k*m.offset])
    return out


def execute(sc, rec):
    m = sc['mesh']
    mesh, sp, vsp, cg, xyz0 = setup(m)
    mesh.coordinates.dat.data[:] = xyz0
    dofs = cells(sp, mesh)
    verts = cells(cg, mesh)
    xc = cells(mesh.coordinates.function_space(), mesh)
    rng = random.Random(sc['seed'])
    vec = sc['vector']
    lim = VertexBasedP1DGLimiter(vsp if vec else sp, **({} if sc['moving'] else {'time_dependent_mesh': False}))
    f = Function(vsp if vec else sp)

    def deform():
        d = xyz0.copy()
        n = d.shape[0]
        if m['layers']:
            base = {}
            for q in d:
                base.setdefault((round(q[0], 9), round(q[1], 9)), rng.randint(2, 9)/4.0)
            d[:, 2] = [q[2]*base[(round(q[0], 9), round(q[1], 9))] for q in d]
        else:
            h = min(float(F(m['lx']))/m['cells'][0], float(F(m['ly']))/m['cells'][1])
            d += numpy.array([[h*rng.randint(-16, 16)/64.0 for c in range(2)] for k in range(n)])
        mesh.coordinates.dat.data[:] = d

    def announce():
        x = mesh.coordinates.dat.data_ro
        rec('mesh', cells=verts, xy=[[[dec(a, 16) for a in x[k]] for k in r] for r in xc])
    if sc['deform0']:
        deform()
        if not sc['moving']:
            lim = VertexBasedP1DGLimiter(vsp if vec else sp, time_dependent_mesh=False)
    announce()
    for step in sc['steps']:
        if step == 'move':
            deform()
            announce()
            continue
        a = f.dat.data
        shape = a.shape
        if step == 'random':
            v = numpy.array([rng.randint(-64, 64)/8.0 for k in range(a.size)])
        elif step == 'step':
            v = numpy.array([rng.choice([0.0, 0.0, 1.0]) for k in range(a.size)])
        elif step == 'constant':
            v = numpy.full(a.size, rng.randint(-40, 40)/8.0)
        elif step == 'again':
            v = a.ravel().copy()
        else:
            # piecewise constant plus little slope: mostly unlimited
            v = numpy.zeros(a.size).reshape(shape)
            for r in dofs:
                base = rng.randint(-40, 40)/4.0
                for k in r:
                    v[k] = base + rng.randint(-8, 8)/16.0
            v = v.ravel()
        a[...] = v.reshape(shape)
        before = a.copy().reshape(shape[0], -1)
        lim.apply(f)
        after = f.dat.data_ro.reshape(shape[0], -1)
        for c in range(before.shape[1]):
            rec('limit', before=[[dec(before[k, c], 16) for k in r] for r in dofs],
                after=[[dec(after[k, c], 16) for k in r] for r in dofs])


drv.run(execute)
