"""A stand-in for pygmo that acts by its documented contract."""
from .sims import *
from .files import Files, Text

FULL = dict(number_of_individuals=100, number_of_generations=600, crossover_rate=.6, mutation_rate=.04, elitism=1,
            crossover_type='exponential', mutation_type='gaussian', selection_type='tournament', selection_param=4,
            scale_factor=.5, variant_de=10, ftol_de=1e-8, xtol_de=1e-8, omega_pso=0.7298, eta1_pso=2.05, eta2_pso=2.05,
            variant_pso=5, max_v_pso=0.5, neighborhood_type_pso=2, neighborhood_param_pso=4)
COLUMNS = {'ga': ['Gen', 'Fevals', 'Best', 'Improvement'], 'sade': ['Gen', 'Fevals', 'Best', 'F', 'CR', 'Variant', 'dx', 'df'],
           'de': ['Gen', 'Fevals', 'Best', 'F', 'CR', 'dx', 'df'], 'pso': ['Gen', 'Fevals', 'gbest', 'Mean Vel.', 'Mean lbest', 'Avg. Dist.']}
# the algorithm behind each name: class, and which setting goes into which of its parameters
USES = {'ga': ('sga', dict(gen='number_of_generations', cr='crossover_rate', m='mutation_rate', param_s='selection_param', crossover='crossover_type', mutation='mutation_type', selection='selection_type')),
        'sade': ('de1220', dict(gen='number_of_generations', ftol='ftol_de', xtol='xtol_de')),
        'de': ('de', dict(gen='number_of_generations', F='scale_factor', CR='crossover_rate', variant='variant_de', ftol='ftol_de', xtol='xtol_de')),
        'pso': ('pso', dict(gen='number_of_generations', omega='omega_pso', eta1='eta1_pso', eta2='eta2_pso', max_vel='max_v_pso', variant='variant_pso', neighb_type='neighborhood_type_pso', neighb_param='neighborhood_param_pso'))}
# documented parameters and defaults of pygmo 2
SIG = {'sga': dict(gen=1, cr=.9, eta_c=1., m=.02, param_m=1., param_s=2, crossover='exponential', mutation='polynomial', selection='tournament', seed=None),
       'de1220': dict(gen=1, allowed_variants=None, variant_adptv=1, ftol=1e-6, xtol=1e-6, memory=False, seed=None),
       'de': dict(gen=1, F=.8, CR=.9, variant=2, ftol=1e-6, xtol=1e-6, seed=None),
       'pso': dict(gen=1, omega=0.7298, eta1=2.05, eta2=2.05, max_vel=.5, variant=5, neighb_type=2, neighb_param=4, memory=False, seed=None)}


class Algo:
    """pygmo.algorithm(user defined algorithm)"""

    def __init__(self, pg, uda):
        self.pg, self.uda = pg, uda
        self.verbosity = None
        pg.algorithms.append(self)

    def set_verbosity(self, n):
        self.verbosity = n

    def get_name(self):
        return self.uda.kind

    def get_extra_info(self):
        return '\tinfo'

    def extract(self, t):
        if t is not self.pg.kinds[self.uda.kind]:
            return None
        pg = self.pg

        class Log:
            def get_log(self):
                return list(pg.log)
        return Log()

    def evolve(self, pop):
        return self.pg.evolve(self, pop)


class Pygmo:
    def __init__(self, ctx, copies=False):
        self.ctx, self.copies = ctx, copies
        self.algorithms, self.problems, self.populations, self.log = [], [], [], []
        self.kinds = {}
        for kind in SIG:
            self.kinds[kind] = self.make(kind)
            setattr(self, kind, self.kinds[kind])
        ctx.mod('optimization')
        ctx.boundary_module('pygmo', self)

    def make(self, kind):
        class Uda:
            def __init__(self, *a, **k):
                names = list(SIG[kind])
                assert len(a) <= len(names) and set(k) <= set(names), (a, k)
                self.kind = kind
                self.given = {**dict(zip(names, a)), **k}
                self.got = {**SIG[kind], **self.given}
        Uda.__name__ = kind
        return Uda

    def algorithm(self, uda):
        return Algo(self, uda)

    def problem(self, udp):
        import copy
        udp = copy.deepcopy(udp) if self.copies else udp
        self.problems.append(udp)
        return udp

    def population(self, prob, size=0, seed=None):
        class Pop:
            pass
        p = Pop()
        p.prob, p.size = prob, size
        self.populations.append(p)
        return p

    def evolve(self, algo, pop):
        raise NotImplementedError


class Sim:
    """what an optimization study needs to know of a simulation"""

    def __init__(self, configurations=None):
        self.configurations = configurations


def study(ctx, sim=None, prob=None, pars=('p',), **k):
    O = ctx.mod('optimization')
    if sim is None:
        sim = Sim({'some': 'configuration'})
    return O.Optimization(simulation=sim, optimization_problem=prob, optimization_parameters=list(pars), **k)
