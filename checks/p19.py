"""P19: the triangulated sphere: its triangles, places located in them, and views of parts of it."""
import math

from vf.api import harness
from checks.linear import rows

MESH = 'eustace.analysis.mesh.mesh'
LOC = 'eustace.analysis.mesh.locator'
GEOM = 'eustace.analysis.mesh.geometry'
SPHERE = 'eustace.analysis.advanced_standard.stats.spde.spherical'
VIEW = 'eustace.analysis.advanced_standard.stats.spde.spherical_view'
REAL = ('floating point numbers are real numbers',)
SNAP = REAL + ('coefficients that differ by less than 1e-11 of the largest are equal (coordinates of the mesh are rounded)',)
BASE = 58


def integers(S, a):
    return [[int(v) for v in r] for r in rows(S, a)]


def det(p, q, r):
    return p[0] * (q[1] * r[2] - q[2] * r[1]) - p[1] * (q[0] * r[2] - q[2] * r[0]) + p[2] * (q[0] * r[1] - q[1] * r[0])


def places(S, mesh):
    return [[float(v) for v in r] for r in rows(S, mesh.points)]


# -- the mesh
@harness(params=[0, 1, 2], assumptions=REAL, bounds='0 to 2 subdivisions, poles at faces or not, projected on the sphere or not')
def topology(S, level):
    """Triangles are numbered in order, every side of a triangle is one edge shared with exactly one other, in opposite direction, and all turn the same way."""
    M = S.module(MESH)
    mesh = M.MeshIcosahedronSubdivision.build(level, project_onto_sphere=S.fork_bool('project'), face_centre_at_poles=S.fork_bool('poles'))
    t, e = integers(S, mesh.triangles), integers(S, mesh.edges)
    n = 20 * 4**level
    S.eq([len(t), len(e), S.shape(mesh.points)[0]], [n, 3 * n // 2, n // 2 + 2], 'numbers of triangles, edges and points')
    S.eq([r[0] for r in t], [k << (BASE - 2 * level) for k in range(n)], 'triangles are numbered in order')
    S.eq(int(mesh.level), level, 'level')
    sides = {}
    for p, q, ta, ka, tb, kb in e:
        for a, b, tri, k in ((p, q, ta, ka), (q, p, tb, kb)):
            tri = t[tri >> (BASE - 2 * level)]
            S.check((tri[1 + k], tri[1 + (k + 1) % 3]) == (a, b), 'an edge is the side it says of either triangle')
            sides[(tri[0], k)] = sides.get((tri[0], k), 0) + 1
    S.check(len(sides) == 3 * n and set(sides.values()) == set([1]), 'every side is on one edge')
    p = places(S, mesh)
    turn = [det(*[p[k] for k in r[1:]]) for r in t]
    S.check(all(v < 0 for v in turn), 'all triangles turn clockwise')
    S.close(p[0][0]**2 + p[0][1]**2 + p[0][2]**2, 1.0, 'on the sphere')
    if level == 0:
        side = [sum((p[x][k] - p[y][k])**2 for k in range(3)) for r in t for x, y in ((r[1], r[2]), (r[2], r[3]), (r[3], r[1]))]
        S.close(side, [side[0]] * len(side), 'sides are equally long')
        S.close([sum(v * v for v in q) for q in p], [1.0] * 12, 'points are on the sphere')


@harness(params=[(l, pr) for l in (0, 1) for pr in (False, True)], assumptions=REAL, timeout_ms=5000, bounds='a mesh of 20 or 80 triangles with three of its points moved anywhere near')
def subdivision(S, level, project):
    """A triangle becomes four: its corners with the middles of their sides, and the middles; middles are put on the sphere if asked for."""
    M = S.module(MESH)
    parent = M.MeshIcosahedronSubdivision.build(level)
    pts = places(S, parent)
    t = integers(S, parent.triangles)
    which = S.choice('triangle', [0, 7, 13] if level == 0 else [5, 42, 79])
    for k in t[which][1:]:
        pts[k] = [v + S.real('p%d%d' % (k, d), -0.1, 0.1) for d, v in enumerate(pts[k])]
    parent.points = S.np.array(pts)
    child = M.MeshIcosahedronSubdivision.subdivide(parent, project_onto_sphere=project)
    got = rows(S, child.points)
    u = integers(S, child.triangles)
    S.close([v for r in got[:len(pts)] for v in r], [v for r in pts for v in r], 'points of the parent stay')
    for k, r in enumerate(t):
        c = [q[1:] for q in u[4 * k:4 * k + 4]]
        p = r[1:]
        middles = c[3]
        S.check([c[i][i] for i in range(3)] == p, 'corners')
        S.check(all(c[i][j] == middles[3 - i - j] for i in range(3) for j in range(3) if i != j), 'corners end at the middles')
        S.check(len(set(middles)) == 3 and min(middles) >= len(pts), 'middles are new')
        if k == which or k % 7 == 0:
            for i in range(3):
                a, b = [pts[p[j]] for j in range(3) if j != i]
                m = [(x + y) * 0.5 for x, y in zip(a, b)]
                if project:
                    n = S.sqrt(m[0] * m[0] + m[1] * m[1] + m[2] * m[2])
                    m = [v / n for v in m]
                S.close(got[middles[i]], m, 'middle of a side', tol=1e-9)


# -- places
def weighted(w, p):
    return [w[0] * p[0][k] + w[1] * p[1][k] + w[2] * p[2][k] for k in range(3)]


MESHES = {}


def meshes(S, level):
    """Meshes and what is in them, made once for each process and way of running."""
    M = S.module(MESH)
    key = (id(M), level)
    if key not in MESHES:
        fine = M.MeshIcosahedronSubdivision.build(level)
        MESHES[key] = (M, M.MeshIcosahedronSubdivision.build(0), integers(S, fine.triangles), places(S, fine))
    return MESHES[key][1:]


def located_in(S, level, indices, more=False):
    L = S.module(LOC)
    base, t, p = meshes(S, level)
    which = S.choice('triangle', indices)
    S.snap(1e-11)
    a, b = S.real('a', 0.001, 1), S.real('b', 0.001, 1)
    S.assume(a + b <= 0.999)
    w = [a, b, 1 - a - b]
    stretch = 2.5 if more else 1.0
    other = [(which + 1) % len(t), (3 * which + 11) % len(t)]
    fixed = [[0.2, 0.3, 0.5], [0.55, 0.25, 0.2]]
    corner = [[p[k] for k in t[i][1:]] for i in (other[0], which, other[1])]
    ws = [fixed[0], w, fixed[1]]
    v = [[x * stretch for x in weighted(x, c)] for x, c in zip(ws, corner)]
    locator = L.TriangleLocatorHierarchical(base)
    ids, got = locator.locate_vector_hierarchical(S.np.array(v), levels=level)
    S.eq([int(x) for x in S.flat(ids)], [t[i][0] for i in (other[0], which, other[1])], 'the triangle the place is in')
    for k, x in enumerate(ws):
        S.close(rows(S, got)[k], x, 'weights of its corners', tol=1e-6)
    if more:
        deeper, _ = locator.locate_vector_hierarchical(S.np.array(v[1:2]), levels=level + 1)
        S.eq(int(S.flat(deeper)[0]) >> (BASE - 2 * level), t[which][0] >> (BASE - 2 * level), 'finer triangles lie in coarser ones')
        index = [int(x) for x in S.flat(locator.locate_vector_indices_exhaustive(S.np.array(v)))]
        S.eq(index, [t[i][0] >> BASE for i in (other[0], which, other[1])], 'triangle without subdivision')
        if level == 0:
            for k, x in enumerate(rows(S, locator.barycentric_coordinates_at_indices(S.np.array(index), S.np.array(v)))):
                S.close(x, ws[k], 'weights without subdivision', tol=1e-6)


@harness(params=[0, 7, 14], assumptions=SNAP, bounds='any place inside any of 20 triangles, with two others in other triangles')
def located_coarse(S, face):
    """Places are found in the triangle they lie in, with the weights that give them."""
    located_in(S, 0, list(range(face, min(face + 7, 20))))


@harness(params=[(0, 3), (0, 18), (1, 21)], assumptions=SNAP, bounds='any place inside some of 20 or 80 triangles, vectors of other length, one level finer')
def located_further(S, level, which):
    """Triangles do not depend on the length of a vector, and finer ones lie in coarser ones."""
    located_in(S, level, [which], more=True)


@harness(params=list(range(8)), assumptions=SNAP, bounds='any place inside any of 40 of 80 triangles, with two others in other triangles')
def located(S, start):
    """Places are found in the triangle they lie in, with the weights that give them."""
    located_in(S, 1, list(range(start, 80, 16)))


@harness(params=list(range(8, 16)), tier='thorough', assumptions=SNAP, time_s=600, bounds='any place inside any of the others of 80 triangles, with two others in other triangles')
def located_rest(S, start):
    """Places are found in the triangle they lie in, with the weights that give them."""
    located_in(S, 1, list(range(start, 80, 16)))


@harness(params=[0, 41, 102, 163, 204, 255, 307, 319], assumptions=SNAP, bounds='any place inside any of 8 of 320 triangles, with two others in other triangles')
def located_fine(S, which):
    """Places are found in the triangle they lie in, with the weights that give them."""
    located_in(S, 2, [which])


@harness(params=list(range(20)), tier='thorough', assumptions=SNAP, time_s=900, bounds='any place inside any of 320 triangles, with two others in other triangles')
def located_fine_all(S, start):
    """Places are found in the triangle they lie in, with the weights that give them."""
    located_in(S, 2, list(range(start, 320, 20)))


@harness(params=list(range(3, 1280, 64)), tier='thorough', assumptions=SNAP, time_s=900, bounds='any place inside any of 20 of 1280 triangles, with two others in other triangles')
def located_finer(S, which):
    """Places are found in the triangle they lie in, with the weights that give them."""
    located_in(S, 3, [which])


def corners_along(p, path):
    """Corners of the triangle reached by taking one part after another."""
    for part in path:
        mid = []
        for i in range(3):
            m = [(p[(i + 1) % 3][k] + p[(i + 2) % 3][k]) / 2 for k in range(3)]
            mid.append([x / math.sqrt(sum(y * y for y in m)) for x in m])
        p = mid if part == 3 else [p[i] if i == part else mid[3 - i - part] for i in range(3)]
    return p


def located_along(S, face, path):
    L = S.module(LOC)
    base, t, p = meshes(S, 0)
    S.snap(1e-11)
    a, b = S.real('a', 0.001, 1), S.real('b', 0.001, 1)
    S.assume(a + b <= 0.999)
    other = [(x + 1) % 4 for x in path]
    corner = [corners_along([p[k] for k in t[face][1:]], path), corners_along([p[k] for k in t[(face + 7) % 20][1:]], other)]
    ws = [[a, b, 1 - a - b], [0.2, 0.3, 0.5]]
    ids, got = L.TriangleLocatorHierarchical(base).locate_vector_hierarchical(S.np.array([weighted(x, c) for x, c in zip(ws, corner)]), levels=len(path))
    number = lambda f, q: (f << BASE) | sum(x << (BASE - 2 * (i + 1)) for i, x in enumerate(q))
    S.eq([int(x) for x in S.flat(ids)], [number(face, path), number((face + 7) % 20, other)], 'the triangle the place is in')
    for k, x in enumerate(ws):
        S.close(rows(S, got)[k], x, 'weights of its corners', tol=1e-6)


@harness(params=[(3, '3012'), (17, '13203'), (8, '210331')], assumptions=SNAP, bounds='any place inside one triangle after 4, 5 and 6 subdivisions, with one other')
def located_deep(S, face, path):
    """Places are found in the triangle they lie in after many subdivisions too."""
    located_along(S, face, [int(x) for x in path])


@harness(params=[(11, '03122031'), (0, '0000000'), (19, '33333332')], assumptions=SNAP, bounds='any place inside one triangle after 7 and 8 subdivisions, with one other')
def located_deeper(S, face, path):
    """Places are found in the triangle they lie in after many subdivisions too."""
    located_along(S, face, [int(x) for x in path])


@harness(params=[(0, 0), (0, 1), (1, 0), (1, 1), (1, 2), (1, 3)], assumptions=SNAP, bounds='any place on 10 of 30 or 20 of 120 sides of triangles')
def borders(S, level, part):
    """A place on the side of a triangle is given by the ends of the side."""
    L = S.module(LOC)
    base, t, p = meshes(S, level)
    which, k = S.choice('side', [(i, i % 3) for i in range(part, len(t), 4 * 4**level)])
    S.snap(1e-11)
    a = S.real('a', 0.001, 0.999)
    x, y = t[which][1 + k], t[which][1 + (k + 1) % 3]
    v = [a * u + (1 - a) * w for u, w in zip(p[x], p[y])]
    ids, got = L.TriangleLocatorHierarchical(base).locate_vector_hierarchical(S.np.array([v]), levels=level)
    corners = t[int(S.flat(ids)[0]) >> (BASE - 2 * level)][1:]
    S.check(x in corners and y in corners, 'a triangle with this side')
    want = {x: a, y: 1 - a}
    S.close(S.flat(got), [want.get(c, 0.0) for c in corners], 'weights of the ends', tol=1e-6)


@harness(assumptions=SNAP, bounds='any weights, all four parts')
def parts(S):
    """Weights in a part of a triangle are those that give the same place from the corners of the part."""
    L = S.module(LOC)
    H = L.TriangleLocatorHierarchical
    a, b = S.real('a', 0, 1), S.real('b', 0, 1)
    S.assume(a + b <= 1)
    w = [[a, b, 1 - a - b], [0.25, 0.25, 0.5], [0.1, 0.8, 0.1]]
    sub = H.triangle_barycentre_subdivision_number(S.np.array(w))
    got = rows(S, H.triangle_barycentre_subdivide(S.np.array(w), sub))
    e = [[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]]
    mid = [[0.0, 0.5, 0.5], [0.5, 0.0, 0.5], [0.5, 0.5, 0.0]]
    for k, s in enumerate(S.flat(sub)):
        corners = mid if int(s) == 3 else [e[i] if i == int(s) else mid[3 - i - int(s)] for i in range(3)]
        S.close(weighted(got[k], corners), w[k], 'same place')
        S.check(S.all([x >= 0 for x in got[k]]), 'not negative')
    S.eq(S.flat(sub)[2], 1, 'corner')


# -- coordinates
@harness(assumptions=REAL + ('sine and cosine by the identity of their squares',), bounds='any latitude and longitude')
def cartesian(S):
    """Latitude and longitude give the unit vector with x at the equator of Greenwich, y at 90 east, z at the north pole."""
    G = S.module(GEOM)
    la, lo = S.real('lat', -90, 90), S.real('lon', -180, 360)
    got = rows(S, G.polar2d_to_cartesian(S.np.array([[la, lo], [0.0, 0.0], [0.0, 90.0], [90.0, 12.0], [30.0, 180.0]])))
    r = S.np.radians
    c, s = S.cos(r(la)), S.sin(r(la))
    S.close(got[0], [c * S.cos(r(lo)), c * S.sin(r(lo)), s], 'vector', tol=1e-9)
    S.close([v for g in got[1:] for v in g], [1, 0, 0, 0, 1, 0, 0, 0, 1, -math.sqrt(0.75), 0, 0.5], 'axes')


@harness(assumptions=REAL + ('arc functions are angles with the sine and cosine given, within their range',), bounds='any vector with components between -2 and 2, longer than 0.1 across the axis')
def polar(S):
    """Vectors give the latitude and longitude of their direction, and those give the direction back."""
    G = S.module(GEOM)
    v = [S.real('v%d' % k, -2, 2) for k in range(3)]
    S.assume(v[0] * v[0] + v[1] * v[1] >= 0.01)
    p = G.cartesian_to_polar2d(S.np.array([v, [0.0, 3.0, 0.0], [-1.0, 0.0, 1.0]]))
    q = rows(S, p)
    S.check(S.and_(q[0][0] >= -90.0001, q[0][0] <= 90.0001, q[0][1] >= -180.0001, q[0][1] <= 180.0001), 'range')
    S.close(q[1], [0.0, 90.0], 'latitude, longitude')
    S.close(q[2], [45.0, 180.0], 'latitude, longitude')
    n = S.sqrt(v[0] * v[0] + v[1] * v[1] + v[2] * v[2])
    back = rows(S, G.polar2d_to_cartesian(p))[0]
    for k in range(3):
        d = back[k] * n - v[k]
        S.check(S.and_(d < 1e-6, d > -1e-6), 'direction')


@harness(assumptions=REAL, bounds='triangles with two corners fixed and the third on any of three lines')
def circumcentre(S):
    """The circumcentre is equally far from the corners and in their plane."""
    G = S.module(GEOM)
    a, b, c = [2.0, 0.0, 1.0], [0.0, 1.0, 0.0], [S.real('c0', 0, 2), S.choice('c1', [0.0, 0.5, 3.0]), 1.0]
    u, w = [x - y for x, y in zip(a, b)], [x - y for x, y in zip(c, b)]
    n = [u[1] * w[2] - u[2] * w[1], u[2] * w[0] - u[0] * w[2], u[0] * w[1] - u[1] * w[0]]
    nn = n[0] * n[0] + n[1] * n[1] + n[2] * n[2]
    S.assume(nn >= 0.1)
    S.snap(1e-13)
    p = S.flat(G.triangle_circumcentre(S.np.array([a + b + c])))

    def far(q):
        return sum((x - y) * (x - y) for x, y in zip(p, q))
    S.close(far(a), far(b), 'first and second corner', tol=1e-6)
    S.close(far(a), far(c), 'first and third corner', tol=1e-6)
    S.close(sum(x * (y - z) for x, y, z in zip(n, p, b)), 0.0, 'in the plane', tol=1e-6)


# -- designs on the sphere, and views of parts of it
class Locator(object):
    """Says where places are, and keeps the vectors it was asked about."""

    def __init__(self, S, ids, weights):
        self.S, self.ids, self.weights, self.asked = S, ids, weights, []

    def locate_vector_hierarchical(self, v, levels=29, **k):
        self.asked.append((v, int(levels)))
        return self.S.np.array(self.ids, dtype=self.S.np.uint64), self.S.np.array(self.weights)


def observed(S, model, level):
    """Design for two places in any triangles, with any weights."""
    n = 20 * 4**level
    first = S.choice('first', [0, 1, 7, 19] if level == 0 else [0, 5, 37, 79])
    second = S.choice('second', [1, 12] if level == 0 else [5, 60])
    w = [[S.real('w%d%d' % (i, k), 0, 1) for k in range(3)] for i in range(2)]
    model.triangle_locator = Locator(S, [k << (BASE - 2 * level) for k in (first, second)], w)
    at = [[S.real('lat', -90, 90), S.real('lon', -180, 180)], [10.0, 20.0]]
    return at, (first, second), w


@harness(params=[0, 1], assumptions=REAL, bounds='20 or 80 triangles, two places in some of them, any weights')
def design(S, level):
    """The design of an observation has the weights of the corners of its triangle at these corners and nothing elsewhere."""
    m = S.module(SPHERE).SphereMeshSPDE(level)
    at, where, w = observed(S, m, level)
    t = integers(S, m.triangulation.triangles)
    A = m.build_A(S.np.array(at))
    n = 10 * 4**level + 2
    S.eq(list(S.shape(A)), [2, n], 'observations by points')
    S.eq(m.n_latent_variables(), n, 'one variable for each point')
    A = rows(S, A)
    for i in range(2):
        want = [0.0] * n
        for k, c in enumerate(t[where[i]][1:]):
            want[c] = w[i][k]
        S.eq(A[i], want, 'weights at the corners')
    (asked, levels), = m.triangle_locator.asked
    S.eq(levels, level, 'level')
    r = S.np.radians(at[0][0]), S.np.radians(at[0][1])
    S.close(rows(S, asked)[0], [S.cos(r[0]) * S.cos(r[1]), S.cos(r[0]) * S.sin(r[1]), S.sin(r[0])], 'place asked about', tol=1e-9)


def family(t, level):
    """Ancestor of each triangle at a coarser level."""
    return [k >> (2 * level) for k in range(len(t))]


def view(S, kind, level):
    """A view and the triangles it should have."""
    V = S.module(VIEW)
    M = S.module(MESH)
    if kind == 'global':
        return V.SphereMeshViewGlobal(level), list(range(20 * 4**level))
    if kind == 'given':
        ks = S.choice('triangles', [[5, 0, 37], [79], [60, 5, 1, 61]]) if level == 1 else S.choice('triangles', [[7, 0, 1], [12]])
        return V.SphereMeshView(level, S.np.array(ks)), sorted(ks)
    at = S.choice('coarse', [c for c in (0, 1) if c <= level])
    k = S.choice('index', [0, 5, 17])
    if kind == 'super':
        return V.SphereMeshViewSuperTriangle(level, at, k), [i for i in range(20 * 4**level) if i >> (2 * (level - at)) == k]
    coarse = integers(S, M.MeshIcosahedronSubdivision.build(at).triangles)
    near = [i for i, r in enumerate(coarse) if set(r[1:]) & set(coarse[k][1:])]
    return V.SphereMeshViewLocal(level, at, k), [i for i in range(20 * 4**level) if (i >> (2 * (level - at))) in near]


@harness(params=[(k, l) for k in ('given', 'super', 'local', 'global') for l in (0, 1)], assumptions=REAL, bounds='20 or 80 triangles; views of some, of a coarser triangle, of its neighbours and of all; two places in some triangles, any weights')
def views(S, kind, level):
    """A view has the triangles asked for, the corners of these as variables, in order, and sees places in its triangles only."""
    m, ks = view(S, kind, level)
    t = integers(S, m.triangulation.triangles)
    S.eq([int(k) for k in S.flat(m.active_triangle_indices)], ks, 'triangles')
    points = sorted(set(c for k in ks for c in t[k][1:]))
    S.eq([int(k) for k in S.flat(m.active_vertex_indices)], points, 'points')
    S.eq(m.n_latent_variables(), len(points), 'one variable for each point')
    at, where, w = observed(S, m, level)
    A = m.build_A(S.np.array(at))
    S.eq(list(S.shape(A)), [2, len(points)], 'observations by points')
    A = rows(S, A)
    seen = S.flat(m.in_domain(S.np.array(at)))
    for i in range(2):
        want = [0.0] * len(points)
        if where[i] in ks:
            for k, c in enumerate(t[where[i]][1:]):
                want[points.index(c)] = w[i][k]
        S.eq(A[i], want, 'weights at the corners in the view')
        S.check(bool(seen[i]) == (where[i] in ks), 'in the domain')
    p = places(S, m.triangulation)
    C, G = elements(p, [t[k][1:] for k in ks], points)
    S.close(S.flat(m.build_Q_C_tilde()), [v for r in C for v in r], 'areas of the triangles of the view')
    S.close(S.flat(m.build_Q_G()), [v for r in G for v in r], 'stiffness of the triangles of the view')
    vm = rows(S, m.get_vertex_mappings())
    S.check(all(bool(vm[i][j] == (1 if j == c else 0)) for i, c in enumerate(points) for j in range(len(p))), 'map of the points')
    tm = rows(S, m.get_triangulation_mappings())
    S.check(all(bool(tm[i][j] == (1 if j == k else 0)) for i, k in enumerate(ks) for j in range(len(t))), 'map of the triangles')


def elements(p, triangles, points):
    """Finite elements by hand: lumped areas and stiffness."""
    n = len(points)
    C = [[0.0] * n for _ in range(n)]
    G = [[0.0] * n for _ in range(n)]
    for tri in triangles:
        e = [[y - x for x, y in zip(p[tri[(i + 1) % 3]], p[tri[(i + 2) % 3]])] for i in range(3)]
        u, w = e[0], e[1]
        c = [u[1] * w[2] - u[2] * w[1], u[2] * w[0] - u[0] * w[2], u[0] * w[1] - u[1] * w[0]]
        area = 0.5 * math.sqrt(sum(x * x for x in c))
        for i in range(3):
            a = points.index(tri[i])
            C[a][a] += area / 3
            for j in range(3):
                G[a][points.index(tri[j])] += sum(x * y for x, y in zip(e[i], e[j])) / (4 * area)
    return C, G


@harness(params=['direct', 'exponential', 'accumulated', 'accumulated_q'], assumptions=REAL + ('exp is a positive function with exp(a+b) = exp(a) exp(b)', 'log is its inverse'),
         bounds='20 triangles in 3 overlapping views that cover the sphere, in two orders, any amplitude and range in each')
def merged(S, how):
    """At each point amplitude and range are the mean over the views that have the point, of logarithms or of the values as asked for."""
    V = S.module(VIEW)
    np = S.np
    parts = [[0, 1, 4, 5, 12, 14, 8], list(range(20)), [2, 3, 7, 19, 5]]
    order = S.choice('order', [[0, 1, 2], [2, 0, 1]])
    g = V.SphereMeshViewGlobal(0)
    t = integers(S, g.triangulation.triangles)
    local = [V.SphereMeshView(0, np.array(k)) for k in parts]
    have = [set(c for k in ks for c in t[k][1:]) for ks in parts]
    p = [[S.real('p%d%d' % (i, k), -1, 1) for k in range(2)] for i in range(3)]
    if how in ('direct', 'exponential'):
        q, sd, rd = g.merge_local_parameterisations([local[i] for i in order], [np.array(p[i]) for i in order], merge_method='direct_average' if how == 'direct' else 'exp_average')
        got = [S.flat(sd.dot(q)), S.flat(rd.dot(q))]
    else:
        s = r = n = None
        for i in order:
            s, r, n = V.SphereMeshViewGlobal.accumulate_local_parameterisations(s, r, n, local[i], np.array(p[i]))
        if how == 'accumulated':
            got = [S.flat(x) for x in V.SphereMeshViewGlobal.finalise_local_parameterisation_sigma_rho(s, r, n)]
        else:
            q, sd, rd = V.SphereMeshViewGlobal.finalise_local_parameterisation_q(s, r, n)
            got = [S.flat(sd.dot(q)), S.flat(rd.dot(q))]
    for k in range(2):
        S.eq(len(got[k]), 12, 'one value a point')
        for c in range(12):
            v = [p[i][k] for i in range(3) if c in have[i]]
            if how == 'direct':
                S.close(got[k][c], S.sum(v) / len(v), 'mean of logarithms', tol=1e-9)
            else:
                S.close(S.exp(got[k][c]), S.sum([S.exp(x) for x in v]) / len(v), 'mean of values', tol=1e-6)
    r = S.attempt(g.merge_local_parameterisations, local, [np.array(x) for x in p], merge_method='other')
    S.check(r.raised and isinstance(r.error, ValueError), 'other methods refused')
