A = "src/mqt/qecc/analog_information_decoding/code_construction/"
D = A + "code_constructor.py"
S = A + "sparse_code_constructor.py"


def mk(p, f):
    def b(i, *e, k="bug"):
        return (f"p{p}-{i}", f"P{p}", k, [(f, x, y) for x, y in e])

    return b, (lambda i, *e: b(i, *e, k="refactor"))


b, r = mk(22, D)
CASES = [
    b("idr", ("    id_c: NDArray[np.int32] = np.identity(c, dtype=np.int32)\n    id_n0: NDArray[np.int32] = np.identity(a_1.shape[0], dtype=np.int32)\n    id_n1: NDArray[np.int32] = np.identity(a_2.shape[0], dtype=np.int32)\n    id_n2: NDArray[np.int32] = np.identity(a_2.shape[1]", "    id_c: NDArray[np.int32] = np.identity(r, dtype=np.int32)\n    id_n0: NDArray[np.int32] = np.identity(a_1.shape[0], dtype=np.int32)\n    id_n1: NDArray[np.int32] = np.identity(a_2.shape[0], dtype=np.int32)\n    id_n2: NDArray[np.int32] = np.identity(a_2.shape[1]")),
    b("swapkron", ("d_4: NDArray[np.int32] = np.vstack((np.kron(id_n3, p), np.kron(a_3, id_c)))", "d_4: NDArray[np.int32] = np.vstack((np.kron(p, id_n3), np.kron(id_c, a_3)))")),
    r("nocheck3", ("if not (is_all_zeros(d_1 @ d_2 % 2) and is_all_zeros(d_2 @ d_3 % 2)):", "if not is_all_zeros(d_2 @ d_3 % 2):")),
    b("mod", ("is_all_zeros(d_1 @ d_2 % 2)", "is_all_zeros(d_1 @ d_2)")),
    r("checks4", ("        is_all_zeros((sd_1 * sd_2).todense() % 2)\n        and ", "        ")),
    b("meta", ("    mz = mz_t.T\n", "    mz = mz_t\n")),
    b("swapxz", ("    save_code(hx, hz, mx, mz, codename, lx=None, lz=None)\n\n    if", "    save_code(hz, hx, mx, mz, codename, lx=None, lz=None)\n\n    if"), ("    else:\n        save_code(hx, hz, mx, mz, codename, lx=None, lz=None)", "    else:\n        save_code(hz, hx, mx, mz, codename, lx=None, lz=None)")),
    b("lx", ("    lx = compute_lz(hz, hx)\n", "    lx = compute_lz(hx, hz)\n")),
    b("piv", ("range(im_hz_t.shape[0], log_stack.shape[0])", "range(im_hz_t.shape[0] + 1, log_stack.shape[0])")),
    b("names", ('names: list[str] = ["hx", "hz", "mx", "mz", "lx", "lz"]', 'names: list[str] = ["hx", "hz", "mz", "mx", "lx", "lz"]')),
    r("twice", ("    save_code(hx, hz, mx, mz, codename, lx=None, lz=None)\n\n    if compute_logicals", "    if compute_logicals")),
    r("any", ("    return not np.any(array)", "    return bool(np.all(array == 0))")),
    r("block", ("    d_4: NDArray[np.int32] = np.vstack((np.kron(id_n3, p), np.kron(a_3, id_c)))", "    top, bottom = np.kron(id_n3, p), np.kron(a_3, id_c)\n    d_4: NDArray[np.int32] = np.concatenate((top, bottom), axis=0)")),
]
b, r = mk(22, S)
CASES += [
    b("s-params", ("_store_code_params(hx, hz, codename)", "_store_code_params(hx.todense(), hz.todense(), codename)")),
    b("s-none", ("    else:\n        save_code(hx=hx, hz=hz, mz=mz, codename=codename)\n\n", "")),
    b("s-k", ("    hx, hz = hx.todense(), hz.todense()\n    _m, n = hx.shape\n    code_k = n - mod2.rank(hx) - mod2.rank(hz)", "    hx, hz = hx.todense(), hz.todense()\n    _m, n = hx.shape\n    code_k = n - hx.shape[0] - mod2.rank(hz)")),
    b("s-idn", ("id_n2 = sparse.identity(a_2.shape[1], dtype=int)", "id_n2 = sparse.identity(a_2.shape[0], dtype=int)")),
    b("s-mz", ("    mz = mz_t.transpose()\n", "    mz = mz_t\n")),
    b("s-a1", ("    a2 = sparse.csr_matrix(code.hz.T)", "    a2 = sparse.csr_matrix(code.hx.T)")),
    r("s-T", ("    mz = mz_t.transpose()\n", "    mz = mz_t.T\n")),
    r("s-idn", ("id_n2 = sparse.identity(a_2.shape[1], dtype=int)", "id_n2 = sparse.eye(a_2.shape[1], dtype=int)")),
]
