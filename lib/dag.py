"""A small model of the qiskit circuit / DAG interface for circuits with a known gate list."""
from __future__ import annotations

import terms
from terms import K, T, cval, is_const


def seq(*xs):
    return T("list", *xs)


class Model:
    """Interface of the models of external objects the engine can be given."""

    def attr(self, eng, st, base, name):
        return None

    def call(self, eng, st, path, recv, V, kw, node):
        return None

    def index(self, eng, st, b, i):
        return None


class SolverModel(Model):
    """A solver that answers `sat` with a given assignment {name: value}; None: it answers `unsat`."""

    def __init__(self, env):
        self.env = env

    def value(self, t):
        import z3terms

        if t.op == "call" and t.args[0] in ("z3.Bool", "z3.Int", "z3.BitVec"):
            n = cval(t.args[1])
            if n not in self.env:
                return K(None)
            v = self.env[n]
        else:
            try:
                v = z3terms.ev(t, self.env)
            except z3terms.Unmodelled:
                return None
        return T("z3val", K(v)) if not isinstance(v, bool) else K(v)

    def call(self, eng, st, path, recv, V, kw, node):
        if recv is not None and recv.op == "new" and str(recv.args[0]).startswith("z3."):
            if path == ".check":
                return terms.T("ext", "z3.sat" if self.env is not None else "z3.unsat")
            if path == ".model":
                return T("zmodel")
        if recv is not None and recv.op == "zmodel" and path in (".eval", ".evaluate") and V:
            return self.value(V[0])
        if recv is not None and recv.op == "z3val" and path in (".as_long", ".as_signed_long"):
            return recv.args[0]
        if recv is None and path in ("z3.is_true", "z3.is_false") and len(V) == 1 and is_const(V[0]):
            return K(cval(V[0]) is (path == "z3.is_true"))
        return None

    def index(self, eng, st, b, i):
        return self.value(i) if b.op == "zmodel" else None


class Circuits(Model):
    """gates: [(name, (qubit, ...)), ...]; the circuit is Sym(name)."""

    def __init__(self, **circuits):
        self.c = {k: v for k, v in circuits.items()}

    def circ(self, t):
        if t.op == "sym" and t.args[0] in self.c:
            return self.c[t.args[0]]
        if t.op == "circ" and t.args[0] in self.c:
            return self.c[t.args[0]]
        if t.op == "meth" and t.args[0] == "copy" and len(t.args) == 2:
            return self.circ(t.args[1])
        return None

    @staticmethod
    def name_of(t):
        return t.args[0]

    def attr(self, eng, st, b, name):
        if b.op == "qubit" and name in ("_index", "index"):
            return K(b.args[1])
        if b.op == "qloc" and name == "index":
            return K(b.args[0])
        if b.op == "dnode":
            n, gs = self.c[b.args[0]]
            g = gs[b.args[1]]
            if name == "name":
                return K(g[0])
            if name in ("qargs", "qubits"):
                return T("tuple", *[T("qubit", b.args[0], q) for q in g[1]])
            if name == "cargs":
                return T("tuple")
            if name in ("op", "operation"):
                return T("dop", *b.args)
            if name == "num_qubits":
                return K(len(g[1]))
        if b.op == "dop":
            g = self.c[b.args[0]][1][b.args[1]]
            if name == "name":
                return K(g[0])
            if name == "num_qubits":
                return K(len(g[1]))
        c = self.circ(b)
        if c is not None:
            key = b.args[0]
            if name == "num_qubits":
                return K(c[0])
            if name == "qubits":
                return T("tuple", *[T("qubit", key, q) for q in range(c[0])])
            if name == "data":
                return T("list", *[T("dnode", key, i) for i in range(len(c[1]))])
        return None

    def removed(self, st, dag):
        v = st.ov.get((dag, "#removed"))
        return set(cval(v)) if v is not None else set()

    def remove(self, st, dag, idx):
        st.ov = dict(st.ov)
        st.ov[(dag, "#removed")] = K(tuple(sorted(self.removed(st, dag) | set(idx))))

    def left(self, st, dag):
        gone = self.removed(st, dag)
        return [i for i in range(len(self.c[dag.args[0]][1])) if i not in gone]

    def front(self, st, dag):
        gs = self.c[dag.args[0]][1]
        out, used = [], set()
        for i in self.left(st, dag):
            if not set(gs[i][1]) & used:
                out.append(i)
            used |= set(gs[i][1])
        return out

    def call(self, eng, st, path, recv, V, kw, node):
        if recv is None:
            if path.split(".")[-1] == "circuit_to_dag" and V:
                c = self.circ(V[0])
                if c is not None:
                    return T("dag", V[0].args[0], terms.K(len(eng.events)))
            return None
        name = path[1:]
        c = self.circ(recv)
        if c is not None:
            if name == "find_bit" and len(V) == 1 and V[0].op == "qubit":
                return T("qloc", V[0].args[1])
            return None
        if recv.op == "dag":
            key = recv.args[0]
            gs = self.c[key][1]
            nodes = lambda idx: T("list", *[T("dnode", key, i) for i in idx])
            if name == "front_layer" and not V:
                return nodes(self.front(st, recv))
            if name in ("topological_op_nodes", "op_nodes", "gate_nodes") and not V and not kw:
                return nodes(self.left(st, recv))
            if name == "two_qubit_ops":
                return nodes([i for i in self.left(st, recv) if len(gs[i][1]) == 2])
            if name == "multi_qubit_ops":
                return nodes([i for i in self.left(st, recv) if len(gs[i][1]) > 2])
            if name == "named_nodes" and all(is_const(v) for v in V):
                return nodes([i for i in self.left(st, recv) if gs[i][0] in {cval(v) for v in V}])
            if name == "remove_op_node" and len(V) == 1 and V[0].op == "dnode":
                self.remove(st, recv, [V[0].args[1]])
                return K(None)
            if name == "remove_all_ops_named" and len(V) == 1 and is_const(V[0]):
                self.remove(st, recv, [i for i in self.left(st, recv) if gs[i][0] == cval(V[0])])
                return K(None)
            if name in ("num_qubits", "width") and not V:
                return K(self.c[key][0])
        return None


class StimModel(Circuits):
    """Adds DAG layers and a recorder for stim circuits: the operations appended so far are kept with the path."""

    MEAS = {"M", "MZ", "MX", "MY", "MR", "MRX", "MRY", "MRZ"}

    def __init__(self, events=None, **circuits):
        super().__init__(**circuits)
        self.events = events  # rows of measurement results a sampler returns

    def layers(self, key):
        """Layers as qiskit builds them: every operation as early as its qubits allow."""
        n, gs = self.c[key]
        lv, out = {}, []
        for i, g in enumerate(gs):
            wires = list(g[1]) + [("c", b) for b in (g[2] if len(g) > 2 else ())]
            k = max([lv.get(q, 0) for q in wires] + [0])
            for q in wires:
                lv[q] = k + 1
            while len(out) <= k:
                out.append([])
            out[k].append(i)
        return out

    @staticmethod
    def ops(st, circ):
        v = st.ov.get((circ, "#ops"))
        return () if v is None else cval(v)

    def put(self, st, circ, ops):
        st.ov = dict(st.ov)
        st.ov[(circ, "#ops")] = K(ops)

    @staticmethod
    def consts(eng, st, v):
        if is_const(v):
            return (cval(v),)
        it = eng.known_items(st, v)
        if it is None:
            return None
        it = [eng.val(st, x) for x in it]
        return tuple(cval(x) for x in it) if all(is_const(x) for x in it) else None

    def attr(self, eng, st, b, name):
        if b.op == "lcirc":
            key = b.args[0]
            if name == "num_qubits":
                return K(self.c[key][0])
            if name in ("qubits",):
                return T("tuple", *[T("qubit", key, q) for q in range(self.c[key][0])])
            if name == "data":
                return T("list", *[T("dnode", key, i) for i in self.layers(key)[b.args[1]]])
        if b.op == "dnode" and name in ("clbits", "cargs"):
            g = self.c[b.args[0]][1][b.args[1]]
            return T("tuple", *[T("clbit", b.args[0], c) for c in (g[2] if len(g) > 2 else ())])
        if b.op == "new" and b.args[0] == "stim.Circuit":
            ops = self.ops(st, b)
            if ops is None:
                return None
            if name == "num_qubits":
                return K(max([q for _n, ts, _a in ops for q in ts], default=-1) + 1)
            if name == "num_measurements":
                return K(sum(len(ts) for n_, ts, _a in ops if n_ in self.MEAS))
        return super().attr(eng, st, b, name)

    def index(self, eng, st, b, i):
        if b.op == "qloc" and i is K(0):
            return K(b.args[0])
        if b.op == "dlayer" and is_const(i) and cval(i) == "graph":
            return T("lgraph", *b.args)
        if b.op == "dnode" and is_const(i) and cval(i) in (0, 1, 2):
            return self.attr(eng, st, b, ("operation", "qubits", "clbits")[cval(i)])
        return None

    def call(self, eng, st, path, recv, V, kw, node):
        last = path.split(".")[-1]
        if recv is None:
            if last == "dag_to_circuit" and V and V[0].op == "lgraph":
                return T("lcirc", *V[0].args)
            return super().call(eng, st, path, recv, V, kw, node)
        if recv.op == "dag" and last == "layers" and not V:
            return T("list", *[T("dlayer", recv.args[0], k) for k in range(len(self.layers(recv.args[0])))])
        if recv.op == "lgraph" and last in ("op_nodes", "topological_op_nodes", "gate_nodes") and not V:
            return T("list", *[T("dnode", recv.args[0], i) for i in self.layers(recv.args[0])[recv.args[1]]])
        if recv.op == "lcirc" and last == "find_bit" and len(V) == 1 and V[0].op == "qubit":
            return T("qloc", V[0].args[1])
        if recv.op == "new" and recv.args[0] == "stim.Circuit":
            if last in ("append", "append_operation"):
                a = dict(zip(("name", "targets", "arg"), V))
                a.update({k: eng.val(st, v) for k, v in kw.items()})
                ops = self.ops(st, recv)
                nm = cval(a["name"]) if "name" in a and is_const(a["name"]) else None
                ts = self.consts(eng, st, a["targets"]) if "targets" in a else None
                ar = self.consts(eng, st, a["arg"]) if "arg" in a else ()
                if ops is None or nm is None or ts is None or ar is None or set(a) - {"name", "targets", "arg"}:
                    self.put(st, recv, None)
                else:
                    self.put(st, recv, (*ops, (str(nm).upper(), tuple(int(t) for t in ts), ar)))
                return K(None)
            if last == "copy":
                eng.uid += 1
                r = T("new", "stim.Circuit", K(eng.uid))
                self.put(st, r, self.ops(st, recv))
                return r
            if last == "compile_sampler":
                return T("sampler", recv)
        if recv.op == "sampler" and last == "sample" and self.events is not None:
            import nda
            from pyext import arr

            ev = self.events
            return arr(eng, st, nda.mk((len(ev), len(ev[0])), [K(int(x)) for r in ev for x in r]), dt="bool")
        return super().call(eng, st, path, recv, V, kw, node)
