"""Definitions of the planted bugs (authoring aid, see seeds.py). No check reads this."""
SEEDS = {}


def seed(sid, property, needs, breaks, edits, demo, **kw):
    SEEDS[sid] = dict(property=property, needs=needs, breaks=breaks, edits=edits, demo=demo, **kw)


MOL = '''
import pyscf, pyscf.gto, pyscf.scf
def chain(n, basis="sto-3g", spin=0, d=1.0, cls=None):
    mol = pyscf.gto.M(atom=[["H", (0.05*(i%3), 0.0, d*i + 0.1*(i//2))] for i in range(n)], basis=basis, spin=spin, verbose=0)
    mf = (cls or (pyscf.scf.UHF if spin else pyscf.scf.RHF))(mol)
    mf.conv_tol = 1e-12
    mf.kernel()
    return mf
'''

seed("b01-fbc-empty-rank", "C03",
     "more MPI processes than fragments (or none of the auxiliary kind on some process only): a process without fragments in a round of solvers skips the barrier",
     "processes no longer make the same collective calls in the same order; the run dead-locks or mismatches collectives",
     [("vayesta/ewf/ewf.py", """                        x.kernel()
                if mpi:
                    mpi.world.Barrier()""", """                        x.kernel()
                # Nothing to wait for without any fragments
                if mpi and frags:
                    mpi.world.Barrier()""")],
     MOL + '''
import vayesta.ewf
mf = chain(2, "6-31g")
emb = vayesta.ewf.EWF(mf, bath_options=dict(bathtype="dmet"))
with emb.iao_fragmentation() as f:
    f.add_all_atomic_fragments()
emb.kernel()
''', mpi=3)

seed("b02-send-none", "C05",
     "an owner process whose routed call returns None, on a process other than the receiver",
     "the receiver waits for ever for a value which is never sent",
     [("vayesta/mpi/interface.py", """                    if self.rank != dest:
                        self.log.debugv("MPI[%d]<send>""", """                    # Avoid communication if there is no result
                    if self.rank != dest and res is not None:
                        self.log.debugv("MPI[%d]<send>""")],
     '''
import vayesta
from vayesta.mpi import mpi
@mpi.with_send(source=1)
def f(x):
    return x
for x in (1.0, None, (None, 2), np.arange(3)):
    r = f(x)
    if mpi.rank == 0:
        assert repr(r) == repr(x), (r, x)
''', mpi=2)

seed("b03-rma-window-reuse", "C04",
     "an element of the shared dictionary is replaced by one of the same shape but another data type after the first synchronisation",
     "the dictionary re-uses the window and the metadata of the replaced element, readers interpret the bytes with the old data type",
     [("vayesta/mpi/rma.py", """                if rank == self.mpi.rank:
                    data = self.local_data[key]
                    elements[key] =""", """                # Avoid new allocation, if the shape did not change
                old = self._elements.get(key, None)
                if shape is not None and old is not None and old.location == rank and old.shape == shape:
                    if rank == self.mpi.rank:
                        old.rma_lock()
                        old.rma_put(np.ascontiguousarray(self.local_data[key]))
                        old.rma_unlock()
                    continue
                if rank == self.mpi.rank:
                    data = self.local_data[key]
                    elements[key] =""")],
     '''
import vayesta
from vayesta.mpi import mpi
d = mpi.create_rma_dict({mpi.rank: np.arange(6.0)})
with d.writable():
    d[mpi.rank] = np.arange(6, dtype=np.int64) + 10
for r in range(mpi.size):
    x = d[r]
    assert x.dtype == np.int64 and np.array_equal(x, np.arange(6) + 10), x
''', mpi=2)

seed("b04-demo-mf-before-reduce", "C02",
     "more than one process and a named receiving process",
     "the mean-field part of the democratically partitioned 1-DM is added once per process",
     [("vayesta/core/qemb/rdm.py", """        dm1 += einsum("xi,ij,px,qj->pq", px, dm1x, rx, rx)
    if mpi:
        dm1 = mpi.nreduce(dm1, target=mpi_target, logfunc=emb.log.timingv)
        if mpi_target not in (None, mpi.rank):
            return None
    if with_mf is True:
        dm1[np.diag_indices(emb.nocc)] += 2
""", """        dm1 += einsum("xi,ij,px,qj->pq", px, dm1x, rx, rx)
    # The mean-field part needs to be added on the target rank only
    if with_mf is True and (mpi_target is None or mpi.rank <= mpi_target):
        dm1[np.diag_indices(emb.nocc)] += 2 if mpi_target is not None else 2 / len(mpi)
    if mpi:
        dm1 = mpi.nreduce(dm1, target=mpi_target, logfunc=emb.log.timingv)
        if mpi_target not in (None, mpi.rank):
            return None
""")],
     MOL + '''
import vayesta.ewf
from vayesta.mpi import mpi
mf = chain(4)
emb = vayesta.ewf.EWF(mf, bath_options=dict(bathtype="dmet"))
with emb.sao_fragmentation() as f:
    f.add_all_atomic_fragments()
emb.kernel()
a = emb.make_rdm1_demo()
for t in range(mpi.size):
    b = emb.make_rdm1_demo(mpi_target=t)
    if mpi.rank == t:
        assert abs(a - b).max() < 1e-8, abs(a - b).max()
''', mpi=3)

seed("b05-icmp2-local", "C01",
     "two fragments of which one is the symmetry-derived copy of a fragment of another process, in the inter-cluster MP2 energy",
     "pairs with symmetry-derived fragments which belong to another process are counted only partially",
     [("vayesta/ewf/icmp2.py", """            # Loop over all other fragments
            for iy, y in enumerate(_get_icmp2_fragments(emb)):
                cy = ClusterRHF(y, coll)
""", """            # Loop over all other fragments
            for iy, y in enumerate(_get_icmp2_fragments(emb)):
                # Symmetry children have no own cluster data on other processes
                if y.sym_parent is not None and y.mpi_rank != mpi.rank and y.sym_parent.id != x.id:
                    continue
                cy = ClusterRHF(y, coll)
""")],
     '''
import pyscf, pyscf.pbc.gto, pyscf.pbc.scf, vayesta.ewf
from vayesta.mpi import mpi
c = pyscf.pbc.gto.Cell()
c.a, c.atom, c.basis, c.precision, c.verbose = np.eye(3) * 3.0, "H 0 0 0; H 0 0 0.9", "sto-3g", 1e-6, 0
c.build()
mf = pyscf.pbc.scf.KRHF(c, c.make_kpts([2, 1, 1])).density_fit(auxbasis="weigend")
mf.conv_tol = 1e-11
mf.kernel()
def energy():
    emb = vayesta.ewf.EWF(mf, bath_options=dict(threshold=1e-3))
    with emb.iao_fragmentation() as f:
        f.add_all_atomic_fragments()
    emb.kernel()
    return emb.get_intercluster_mp2_energy()
e = energy()
# Reference: the same program on one process
import subprocess
if mpi.size == 2:
    env = dict(os.environ, DEMO_SIZE="1", DEMO_RANK="0")
    out = subprocess.check_output([sys.executable, "-W", "ignore", os.path.abspath(__file__)], env=env)
    ref = float(out.decode().split("ENERGY")[-1])
    assert abs(e - ref) < 1e-7, (e, ref)
else:
    print("ENERGY", repr(float(e)))
''', mpi=2)

seed("b06-scf-converged", "C06",
     "a shared mean field whose SCF did not converge (or did not converge in a repeated call), looked at on a process other than the first",
     "processes disagree on whether the mean field is converged",
     [("vayesta/mpi/scf.py", """            self.converged = bcast(self.converged)
            self.e_tot = bcast(self.e_tot)
""", """            # Only broadcast if the energy was determined
            self.e_tot = bcast(self.e_tot)
            self.converged = self.e_tot is not None
""")],
     MOL + '''
import vayesta
from vayesta.mpi import mpi
mol = chain(6, d=1.4).mol
mf = pyscf.scf.RHF(mol)
mf.max_cycle = 2
mf = mpi.scf(mf)
mf.kernel()
assert not mf.converged, mf.converged
''', mpi=2)
