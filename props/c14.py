"""The BFGS and DFP updates of the Hessian approximation and of its inverse."""

from .opaque import *
from .solves import BFGSWith, DFPWith, _zeros

BOUNDS = "two- and three-dimensional pytree spaces, arbitrary previous matrix, step and gradients; one update each"
ASSUMPTIONS = ["real arithmetic", "positive definite previous matrix for definiteness and for the denominators"]
EPS = 2.0**-52
P2 = {"a": sds(), "b": sds(1)}


def hess(info):
    return info.hessian_inv if hasattr(info, "hessian_inv") else info.hessian


def with_matrix(op, A, struct):
    """an operator like `op` with matrix A"""
    if isinstance(op, lx.PyTreeLinearOperator):
        leaves, treedef = jtu.tree_flatten(struct)
        blocks, o = [], 0
        for l in leaves:
            k = int(np.prod(l.shape))
            row, q = [], 0
            for m in leaves:
                n = int(np.prod(m.shape))
                row.append(A[o : o + k, q : q + n].reshape(l.shape + m.shape))
                q += n
            blocks.append(jtu.tree_unflatten(treedef, row))
            o += k
        return lx.PyTreeLinearOperator(jtu.tree_unflatten(treedef, blocks), struct, lx.positive_semidefinite_tag)
    return op_of(A, struct, lx.positive_semidefinite_tag)


class Update(Case):
    def __init__(self, name, cls, inverse, struct, **kw):
        super().__init__(name=name, **kw)
        self.cls, self.inverse, self.struct = cls, inverse, struct
        n = self.n = size_of(struct)
        self.inputs = dict(A=Inp((n, n)), y=Inp((n,)), s=Inp((n,)), g=Inp((n,)), d=Inp((n,)), f=Inp(), fe=Inp())

    def solver(self):
        return self.cls(1e-3, 1e-3, optx.max_norm, OpaqueDescentFor(None, False, self.struct), OpaqueSearch(None), self.inverse)

    def update(self, A, y, s, g, d, f, fe):
        st = self.struct
        u = lambda v: unflat(v, st)
        solver = self.solver()
        info, state = solver.init_hessian(u(y), f, u(g))
        first = hess(info)
        FI = optx.FunctionInfo
        info = (FI.EvalGradHessianInv if self.inverse else FI.EvalGradHessian)(f, u(g), with_matrix(first, A, st))
        new, _ = solver.update_hessian(u(y), u(y + s), info, FI.EvalGrad(fe, u(g + d)), state)
        return first, new

    def run(self, env, A, **a):
        st = self.struct
        first, new = self.update(symm(A), **a)
        return dict(
            first=op_matrix(first, st), B=op_matrix(hess(new), st), f=new.f, grad=flat_vec(new.grad),
            kind=jnp.array(isinstance(new, optx.FunctionInfo.EvalGradHessianInv) == self.inverse),
        )

    def mat(self, i):
        n = self.n
        return np.array([[i.A[max(p, q), min(p, q)] for q in range(n)] for p in range(n)], dtype=object)

    def claims(self, D, i, o):
        n = self.n
        A, B = self.mat(i), o.B
        s, d = list(i.s), list(i.d)
        sd = dot(s, d)
        up = D.lt(xc(EPS), sd)
        out = [("kind", sc(o.kind)), ("value", D.eq(sc(o.f), sc(i.fe))), ("grad", D.all_eq(o.grad, [x + y for x, y in zip(i.g, i.d)]))]
        # p = the vector the previous matrix is applied to, q = its required image
        p, q = (d, s) if self.inverse else (s, d)
        w = matvec(A, p)
        pw = dot(p, w)
        dual = self.inverse == (self.cls is BFGSWith)  # the update with the two-sided projection
        for x in range(n):
            for y in range(n):
                out.append((f"start-{x}{y}", D.eq(o.first[x, y], xc(1.0 * (x == y)))))
                out.append((f"skip-{x}{y}", D.implies(D.le(sd, X0), D.eq(B[x, y], A[x, y]))))
                if dual:
                    # (I - q p^T/pq) A (I - p q^T/pq) + q q^T/pq
                    ref = A[x, y] - (q[x] * w[y] + w[x] * q[y]) / sd + q[x] * q[y] * pw / (sd * sd) + q[x] * q[y] / sd
                else:
                    ref = A[x, y] - w[x] * w[y] / pw + q[x] * q[y] / sd
                out.append((f"update-{x}{y}", D.implies(D.and_(up, D.lt(X0, pw)), D.eq(B[x, y], ref))))
                if y > x:
                    out.append((f"symmetric-{x}{y}", D.implies(D.lt(X0, pw), D.eq(B[x, y], B[y, x]))))
            out.append((f"secant-{x}", D.implies(D.and_(up, D.lt(X0, pw)), D.eq(dot(B[x], p), q[x]))))
        if n == 2:
            # stays positive definite: the determinant is a positive multiple of the old one
            detA, detB = A[0, 0] * A[1, 1] - A[0, 1] * A[0, 1], B[0, 0] * B[1, 1] - B[0, 1] * B[1, 0]
            pd = D.and_(D.lt(X0, A[0, 0]), D.lt(X0, detA), up)
            adj = A[1, 1] * q[0] * q[0] - 2 * A[0, 1] * q[0] * q[1] + A[0, 0] * q[1] * q[1]
            ref = adj / sd if dual else detA * sd / pw
            out.append(("definite-0", D.implies(pd, D.lt(X0, B[0, 0]))))
            out.append(("determinant", D.implies(D.and_(up, D.lt(X0, pw)), D.eq(detB, ref))))
            out.append(("determinant-positive", D.implies(D.and_(pd, D.lt(X0, pw)), D.lt(X0, ref))))
            out.append(("denominator", D.implies(pd, D.lt(X0, pw))))
        return out

    def witness(self, D, i, o):
        return [("updated", D.lt(xc(EPS), dot(i.s, i.d)))]


class Inverses(Update):
    """the direct and the inverse update keep matrices inverse to each other"""

    def __init__(self, name, cls):
        super().__init__(name, cls, True, P2)

    def run(self, env, A, **a):
        st = self.struct
        A = symm(A)
        det = A[0, 0] * A[1, 1] - A[0, 1] * A[1, 0]
        H = jnp.array([[A[1, 1], -A[0, 1]], [-A[1, 0], A[0, 0]]]) / det
        self.inverse = True
        _, i1 = self.update(H, **a)
        self.inverse = False
        _, i2 = self.update(A, **a)
        return dict(H=op_matrix(hess(i1), st), B=op_matrix(hess(i2), st))

    def assume(self, D, i):
        A = self.mat(i)
        return [D.lt(X0, A[0, 0]), D.lt(X0, A[0, 0] * A[1, 1] - A[0, 1] * A[0, 1])]

    def claims(self, D, i, o):
        P = [[dot(o.B[x], o.H[:, y]) for y in range(2)] for x in range(2)]
        return [(f"product-{x}{y}", D.eq(P[x][y], xc(1.0 * (x == y)))) for x in range(2) for y in range(2)]


def cases(tier):
    out = []
    for nm, cls in (("bfgs", BFGSWith), ("dfp", DFPWith)):
        for inv in (True, False):
            for st in (P2, PY):
                out.append(Update(f"{nm}-{'inverse' if inv else 'direct'}-{size_of(st)}", cls, inv, st))
        out.append(Inverses(f"{nm}-inverses", cls))
    return out
