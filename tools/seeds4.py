import os as _os
import sys as _sys
exec(open(_os.path.join(_os.path.dirname(_os.path.abspath(_sys.argv[1])), 'seeds3.py')).read().rsplit('\nSEEDS = [')[0])
XI = 'plaschem/xml_inputs.py'
QDB = """
import os, tempfile
from plaschem.xml_inputs import XmlBuilder, XmlParser
class O(object):
    def __init__(self, **kw): self.__dict__.update(kw)
class Rows(list):
    def all(self): return self
    def count(self): return len(self)
    def filter(self, **kw):
        def ok(row):
            for path, want in kw.items():
                x, parts = row, path.split('__')
                how = parts.pop() if parts[-1] in ('startswith', 'endswith', 'in') else ''
                for p in parts: x = getattr(x, p)
                if not {'startswith': lambda: x.startswith(want), 'endswith': lambda: x.endswith(want), 'in': lambda: x in want, '': lambda: x == want}[how]():
                    return False
            return True
        return Rows(r for r in self if ok(r))
def rp(pk, formula, charge=0, *states):
    return O(pk=pk, ordinary_formula=formula, charge=charge, state=Rows(O(state_str=s) for s in states), mass=1., hform=None, lj_epsilon=None, lj_sigma=None, hpem=None)
def ds(pk, a, b, c, unit='cm3.s-1', c_unit='eV', xsec=False, threshold=None, kind=None):
    rows = Rows(O(value=str(v), meta=O(name=n, units=u)) for n, v, u in (('A', a, unit), ('n', b, ''), ('E', c, c_unit)))
    return O(pk=pk, dataset_type=O(pk=kind or (2 if xsec else 1)), parameter_set=rows, threshold=threshold, get_thresh=lambda: 9., entry_id=None, citations=Rows(), is_xsec=lambda: xsec,
             is_arrhenius=lambda: not xsec, fit_arrhenius=lambda: ((a, 0), (b, 0), (c, 0)))
def rxn(pk, lhs, rhs, *sets):
    return O(pk=pk, reactants=Rows(lhs), products=Rows(rhs), reactiondataset_set=Rows(sets), parent_reaction=Rows(), child_reactions=Rows(), get_all_rps=lambda: lhs + rhs)
def through(*rs):
    b = XmlBuilder()
    for r in rs: b.add_reaction_from_qdb(r)
    with tempfile.TemporaryDirectory() as d:
        b.dump_xml(os.path.join(d, 'x.xml'))
        return XmlParser().get_species_and_reactions(os.path.join(d, 'x.xml'))
e, M, Ar, Arp, Ars, Ar4 = rp(1, 'e-', -1), rp(2, 'M'), rp(3, 'Ar'), rp(4, 'Ar+', 1), rp(5, 'Ar', 0, '*'), rp(6, 'Ar', 0, '4s')
"""
SEEDS = [
    dict(id='s57-qdb-triple', property='C30', edits=[(XI, "stateless_str[:-len(qdb_charge_suffix)] + charge * ionisation_degree\n", "stateless_str[:-len(qdb_charge_suffix)] + charge * 2\n")],
         demo=QDB + """
b = XmlBuilder()
b.add_rp_from_qdb(rp(7, 'Ar+3', 3))
assert list(b.species_dict) == ['Ar+++'], list(b.species_dict)
""", needs='a triply charged ion', breaks='the species is named as a doubly charged one'),
    dict(id='s58-qdb-loss', property='C30', edits=[(XI, "el_en_loss = max(0, arrh_c)\n", "el_en_loss = abs(arrh_c)\n")],
         demo=QDB + """
_, r = through(rxn(1, [e, Ar], [e, e, Arp], ds(1, 1., 0.5, -2.)))
assert r[0].get_el_en_loss() == 0., r[0].get_el_en_loss()
""", needs='an electron collision with a negative activation energy', breaks='electrons lose energy they do not lose'),
    dict(id='s59-qdb-lumped-data', property='C30', edits=[(XI, "qdb_datasets = qdb_r.reactiondataset_set.all()\n", "qdb_datasets = master_reaction.reactiondataset_set.all() or qdb_r.reactiondataset_set.all()\n")],
         demo=QDB + """
up, low = rxn(1, [e, Ar], [e, Ar4], ds(11, 2., 0.5, 3.)), rxn(2, [e, Ar], [e, Ars], ds(12, 5., 0.5, 3.))
up.child_reactions.append(low)
low.parent_reaction.append(up)
_, r = through(low)
assert r[0].get_arrh_a(si_units=False) == 2. and r[0].get_qdb_ds_id() == 11, r[0].get_arrh_a(si_units=False)
""", needs='a lumped reaction which has a data set of its own', breaks='resolved reactions get the data of the lumped one'),
    dict(id='s60-qdb-threshold', property='C30', edits=[(XI, "if qdb_ds.threshold is not None:\n", "if qdb_ds.threshold:\n")],
         demo=QDB + """
_, r = through(rxn(1, [e, Ar], [e, Ars], ds(1, 1., 0.5, 2., xsec=True, threshold=0.)))
assert r[0].get_el_en_loss() == 0., r[0].get_el_en_loss()
""", needs='a cross section with a threshold declared to be zero', breaks='another threshold is taken from the data'),
    dict(id='s61-qdb-modified', property='C30', edits=[(XI, "qdb_datasets.filter(dataset_type__pk__in={1, 3})", "qdb_datasets.filter(dataset_type__pk=1)")],
         demo=QDB + """
_, r = through(rxn(1, [Ars, M], [Ar, M], ds(1, 1., 0.5, 2., c_unit='eV', xsec=True), ds(2, 3., 0.5, 2., c_unit='K', kind=3)))
assert r[0].get_qdb_ds_id() == 2
""", needs='a heavy process with a cross section and rate parameters of the third kind', breaks='the cross section is taken'),
]
