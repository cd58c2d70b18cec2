"""Small dense algebra: identities between formulas, true for all real arguments."""
from .core import *
from .witness import compile_asserts, where_in

LEVEL = "proof"
NEEDS_PROGRAM = False
VARIANTS = []
HEADERS = ["src/Omega_h_%s.hpp" % h for h in
           ("scalar", "vector", "matrix", "tensor", "affine", "bbox", "eigen", "metric", "qr", "svd", "lie", "most_normal", "few", "array_ops", "align")]
RULE = ("The repository's vector, matrix, affine, metric, eigenvalue, QR and rotation headers are compiled with Real standing for an exact rational "
        "function in up to 32 unknowns times one square root; each static_assert is an identity between a function's result and its definition.")
TRUSTED = ["g++ 13 constant evaluation", "the exact arithmetic in witness/rat.hpp and the definitions in witness/p13.hpp",
           "branches on real values are taken as at one generic sample point (or its listed sign patterns)"]

# group: (functions it pins down, what is claimed)
G = {
    "scalars": ("square", "squares, cubes, averages and integer powers are those of the argument"),
    "powers": ("power", "power(x, n, d) raised to d is x to the n"),
    "orders": ("clamp", "minima, maxima, signs and clamps order their arguments"),
    "integers": ("factorial", "factorials and greatest common divisors are exact"),
    "v_linear": ("operator+", "vector sums, differences, scalings are taken component by component"),
    "v_dot": ("operator*", "the product of two vectors is their dot product"),
    "v_norm": ("norm", "the norm is the root of the sum of squares"),
    "v_normalize": ("normalize", "normalising keeps the direction and gives length one"),
    "v_makers": ("vector_2", "vectors are made of their components in order"),
    "v_fill": ("fill_vector", "filled and zero vectors hold the value everywhere"),
    "v_pinv": ("pseudo_invert", "the pseudo-inverse of a vector times the vector is one"),
    "v_positivize": ("positivize", "a vector and its opposite have one representative"),
    "v_cross2": ("cross", "the 2D cross product is the signed area"),
    "v_cross3": ("cross", "the 3D cross product is the determinant formula"),
    "v_perp": ("perp", "perp turns a vector by a right angle"),
    "v_project": ("project", "projection and rejection split a vector in parallel and orthogonal parts"),
    "v_resize": ("resize", "resizing a vector keeps components and pads with zeros"),
    "v_average": ("average", "the average is the sum over the count"),
    "v_add_unique": ("add_unique", "add_unique appends exactly what is new"),
    "v_get": ("get_vector", "reading a vector from an array and writing it back agree"),
    "m_layout": ("get_matrix", "matrices are stored by columns"),
    "m_linear": ("operator+", "matrix sums, differences, scalings are taken entry by entry"),
    "m_apply": ("operator*", "matrix times vector is the linear map"),
    "m_product": ("operator*", "matrix times matrix composes the linear maps"),
    "m_transpose": ("transpose", "the transpose exchanges rows and columns"),
    "m_identity": ("identity_matrix", "the identity maps every vector to itself"),
    "m_zero": ("zero_matrix", "the zero matrix is zero"),
    "m_makers": ("matrix_3x3", "matrices are made of their entries, row by row"),
    "m_list": ("Matrix", "matrices built from a list hold it row by row"),
    "m_outer": ("outer_product", "the outer product of a and b has entries a_i b_j"),
    "m_trace": ("trace", "the trace is the sum of the diagonal"),
    "m_diagonal": ("diagonal", "diagonal matrices hold the vector on the diagonal"),
    "m_determinant": ("determinant", "the determinant is the signed sum over permutations"),
    "m_inner": ("inner_product", "the inner product and norm of matrices sum over all entries"),
    "m_cross": ("cross", "the cross-product matrix applies the cross product"),
    "m_uncross": ("uncross", "uncross gives the axial vector of the skew part"),
    "m_invert": ("invert", "a matrix times its inverse is the identity"),
    "m_pinv": ("pseudo_invert", "the pseudo-inverse obeys the Penrose conditions of full rank"),
    "m_symm": ("symm2vector", "symmetric matrices and their component vectors convert back and forth in the documented order"),
    "m_symm_inria": ("symm2vector_inria", "INRIA's component order converts back and forth"),
    "m_vector": ("matrix2vector", "matrices and their component vectors convert back and forth"),
    "m_rotate3": ("rotate", "rotation about an axis is Rodrigues' formula"),
    "m_rotate2": ("rotate", "2D rotation turns counter-clockwise"),
    "m_ortho1": ("form_ortho_basis", "the 1D basis is the vector"),
    "m_ortho": ("form_ortho_basis", "the basis around a unit vector is orthonormal and starts with it"),
    "m_deviator": ("deviator", "the deviator has no trace and differs by an isotropic part"),
    "m_resize": ("resize", "resizing a matrix keeps entries and pads with zeros"),
    "m_max_norm": ("max_norm", "the max norm is the largest absolute entry"),
    "a_apply": ("Affine", "an affine map is its linear part plus its translation"),
    "a_invert": ("invert", "an affine map after its inverse is the identity"),
    "b_unite": ("unite", "the united box is the smallest around both"),
    "b_point": ("BBox", "the box of a point is the point"),
    "b_equilateral": ("make_equilateral", "the equilateral box keeps centre and largest side"),
    "b_unit": ("get_affine_from_bbox_into_unit", "the map into the unit box takes corners to corners"),
    "t_product": ("metric_product", "the metric product is v^T M v"),
    "t_isotropic": ("metric_product", "an isotropic metric scales the dot product"),
    "t_length": ("metric_length_from_eigenvalue", "length and eigenvalue determine each other: l^2 m = 1"),
    "t_lengths": ("metric_lengths_from_eigenvalues", "lengths and eigenvalues determine each other per axis"),
    "t_compose": ("compose_metric", "a metric made of axes and lengths gives each axis its length"),
    "t_compose_eigen": ("compose_eigen", "Q diag(l) Q^-1 has eigenvalues l and eigenvectors Q"),
    "t_maxdet": ("maxdet_metric", "the metric asking for the smallest element is chosen wherever it is listed"),
    "e_charpoly": ("characteristic_polynomial", "the characteristic polynomial is det(x - A)"),
    "e_linear_root": ("find_polynomial_roots", "a linear polynomial's root is its root"),
    "e_quadratic_roots": ("find_polynomial_roots", "a quadratic's two roots are its roots, each simple"),
    "e_double_root": ("find_polynomial_roots", "a square's root is reported once with multiplicity two"),
    "e_no_root": ("find_polynomial_roots", "a positive quadratic has no root"),
    "e_vector3": ("single_eigenvector", "a simple eigenvalue's vector is annihilated by A - l and has length one"),
    "e_vector2": ("single_eigenvector", "a simple eigenvalue's 2D vector is annihilated by A - l"),
    "e_vectors3": ("double_eigenvector", "a double eigenvalue's two vectors are orthonormal and span its space"),
    "e_decompose2": ("decompose_eigen", "the 2D decomposition composes back"),
    "e_decompose_multiple": ("decompose_eigen", "a multiple of the identity decomposes into the identity"),
    "e_offdiag": ("norm_off_diag", "the off-diagonal norm sums the off-diagonal squares"),
    "e_argmax": ("arg_max_off_diag", "the largest off-diagonal entry is found"),
    "e_givens": ("givens_left", "Givens rotations act on two rows or columns and keep lengths"),
    "e_givens_pair": ("givens", "a Givens pair is a rotation that annihilates the second entry"),
    "q_triangular": ("solve_upper_triangular", "back substitution solves the triangular system"),
    "q_solve": ("solve_using_qr", "QR solves the system it is given"),
    "q_implicit": ("implicit_q_x", "the implicit Q is orthogonal and Q R is the matrix"),
    "r_from_quaternion": ("tensor_from_quaternion", "a unit quaternion's matrix rotates v to q v q*"),
    "r_to_quaternion": ("quaternion_from_tensor", "the rotation of a quaternion gives the quaternion back"),
    "r_pack": ("pack_polar", "packing a symmetric part and an axis-angle is undone by unpacking"),
}
HEAVY = {"e_vectors3": 13, "e_decompose2": 9, "m_pinv": 3, "e_vector3": 3, "q_solve": 2, "r_to_quaternion": 2, "q_implicit": 3}


def obligations(thorough=True):
    A = []

    def add(g, args=(), tmpl=()):
        e = g + ("<%s>" % ",".join(map(str, tmpl)) if tmpl else "") + "(%s)" % ",".join(map(str, args))
        A.append((e, (G[g][0],), G[g][1] + ("" if not tmpl else " (size %s)" % "x".join(map(str, tmpl))), HEAVY.get(g, 0.4)))
    for g in ("scalars powers orders integers v_makers v_cross2 v_cross3 v_perp v_add_unique m_makers m_list m_cross m_uncross m_rotate3 m_rotate2 m_ortho1 "
              "t_length e_linear_root e_quadratic_roots e_double_root e_no_root q_triangular q_implicit r_from_quaternion").split():
        add(g)
    for g in ("v_linear v_dot v_norm v_normalize v_fill v_pinv v_project v_average v_get m_identity m_outer m_trace m_diagonal m_determinant m_invert m_symm "
              "m_symm_inria m_deviator a_apply a_invert b_unite b_point b_equilateral b_unit t_product t_isotropic t_lengths t_compose t_compose_eigen e_charpoly "
              "e_offdiag r_pack e_decompose_multiple").split():
        for n in (1, 2, 3):
            if (g, n) not in (("r_pack", 1), ("e_decompose_multiple", 3)):
                add(g, (), (n,))
    for g in "m_layout m_linear m_apply m_transpose m_zero m_inner m_vector m_resize v_resize m_pinv".split():
        for m in (1, 2, 3):
            for n in (1, 2, 3):
                add(g, (), (m, n))
    for m in (1, 2, 3):
        for k in (1, 2, 3):
            for n in (1, 2, 3):
                add("m_product", (), (m, k, n))
    for n in (1, 2, 3):
        for s in range(2 ** n):
            add("v_positivize", (s,), (n,))
            add("q_solve", (s,), (3, n))
        for k in range(n * n):
            add("m_max_norm", (k,), (n,))
        for i in range(n):
            for k in range(n):
                if i != k:
                    add("e_givens", (i, k), (n,))
                    if n == 3:
                        add("e_argmax", (i, k))
    for n in (2, 3):
        add("m_ortho", (1,), (n,))
        add("m_ortho", (-1,), (n,))
    for k in range(3):
        add("t_maxdet", (k,))
        add("e_vector3", (k,))
    for k in range(8):
        add("e_givens_pair", (k,))
    for k in range(2):
        add("e_vector2", (k,))
        add("e_decompose2", (k,))
    for s in (1, -1):
        add("e_vectors3", (s,))
        for b in range(4):
            add("r_to_quaternion", (b, s))
    return A


def check(P):
    R = Result()
    A = obligations()
    R.counts["obligations"] = len(A)
    R.counts["identities"] = len(set(e.split("<")[0].split("(")[0] for e, _, _, _ in A))
    R.counts["functions pinned down"] = len(set(k[0] for _, k, _, _ in A))
    R.samples = ["%s: %s" % (k[0], t) for _, k, t, _ in A[:: max(1, len(A) // 10)]]
    for e, (fn,), t in compile_asserts("p13.hpp", A, rewrite=True):
        R.bad("identity", "%s|%s" % (fn, e), where_in(fn, HEADERS), "%s: not true that %s  [%s]" % (fn, t, e))
    return R
