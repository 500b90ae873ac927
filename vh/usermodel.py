"""Models as a user would define them on the base classes: own states, own layers, own velocities (affine in the layer parameters).

A definition is data (names, layers, terms); the class handed to the code and the reference entry in ref.MODELS are built from it separately.
"""
import torch
from sortedcontainers import SortedDict
from vh import ref as R

# share of the definitions on the base classes which search the parameters by descent (exact in one step for energy weight two)
SEARCH = 0.15
NAMES = ['q2', 'q10', 'v', 'Z', 'a', 'mem_1', 'r', 'd', 'cost', 't', 'p_x', 'dot_y', '_h', 'weight']
LAYERS = ['l1', 'l2', 'l10', 'mix', 'W', 'a_layer', 'read', 'out9', 'dot', 'p_l', 'bias', 'q1']


def definition(ctx, conv=False):
    search = ctx.rng.random() < SEARCH
    n = ctx.choice([1, 2, 2, 3, 3, 4])
    keys = ['q1'] + ctx.rng.sample(NAMES, n - 1)
    infl = [k for k in keys[1:] if ctx.rng.random() < 0.4]
    free = ctx.rng.sample(LAYERS, len(LAYERS))
    layers, terms = {}, []
    for k in keys:
        for _ in range(ctx.choice([1, 1, 2])):
            if not free:
                break
            src = ctx.choice(keys)
            l = free.pop()
            layers[l] = ('g' if src in infl else 'f', 'g' if k in infl else 'f', ctx.rng.random() < 0.6, 2.0 if search else ctx.choice(['w', 'w', 0.5, 4.0]))
            terms.append(('layer', k, l, src, ctx.rng.random() < 0.7, ctx.choice([1.0, 1.0, -0.5, 2.0])))
        same = [j for j in keys if (j in infl) == (k in infl)]
        if ctx.rng.random() < 0.25:
            terms.append(('product', k, ctx.choice(same), ctx.choice(same), ctx.choice([0.2, -0.3])))
        if ctx.rng.random() < 0.2:
            terms.append(('decay', k, k, ctx.choice([-0.5, 0.25])))
    # a layer used twice (shared parameters)
    if ctx.rng.random() < 0.3:
        t = ctx.choice([t for t in terms if t[0] == 'layer'])
        terms.append(('layer', t[1], t[2], t[3], not t[4], 0.5))
    return dict(keys=keys, infl=infl, layers=layers, terms=terms, conv=conv, search=search, lift=ctx.choice(['zero', 'zero', 'copy']) if not infl else 'zero')


def reference(d):
    app = R.cnv if d['conv'] else R.lin

    def rhs(th, q, s):
        out = {k: torch.zeros_like(q[k]) for k in d['keys']}
        for t in d['terms']:
            if t[0] == 'layer':
                v = t[5] * app(th[t[2]], s(q[t[3]]) if t[4] else q[t[3]])
            elif t[0] == 'deep':
                v = t[5] * app(th[t[2]], s(app(th[t[4]], q[t[3]])))
            elif t[0] == 'product':
                v = t[4] * torch.tanh(q[t[2]]) * torch.tanh(q[t[3]])
            else:
                v = t[3] * q[t[2]]
            out[t[1]] = out[t[1]] + v
        return out
    m = R.Model(None, list(d['keys']), dict(d['layers']), rhs, conv=d['conv'], inflated=tuple(d['infl']), has_inflation=True,
                data_init={k: 'copy' for k in d['keys'][1:]} if d['lift'] == 'copy' else None, const=('', 0) if any(t[0] != 'layer' for t in d['terms']) else None)
    m.cls = user_class(d)
    m.definition = d
    m.search = d['search']
    return m


def user_class(d):
    import neuro_shooting.shooting_integrands as si
    import neuro_shooting.overwrite_classes as oc
    import neuro_shooting.state_costate_and_data_dictionary_utils as scd
    conv = d['conv']
    base = getattr(si, 'Shooting{}InParameter{}Integrand'.format('Nonlinear' if d['search'] else 'Linear', 'Convolution' if conv else 'Vector'))

    class UserModel(base):
        def __init__(self, in_features, nonlinearity=None, transpose_state_when_forward=False, concatenate_parameters=True, nr_of_particles=10, particle_dimension=1, particle_size=2,
                     parameter_weight=None, inflation_factor=2, *args, **kwargs):
            super(UserModel, self).__init__(in_features=in_features, nonlinearity=nonlinearity, transpose_state_when_forward=transpose_state_when_forward,
                                            concatenate_parameters=concatenate_parameters, nr_of_particles=nr_of_particles, particle_dimension=particle_dimension, particle_size=particle_size,
                                            parameter_weight=parameter_weight, *args, **kwargs)
            self.inflation_factor = inflation_factor
            if conv:
                self.enlargement_dimensions = [2, 3]

        def create_initial_state_parameters(self, set_to_zero, *args, **kwargs):
            sd = SortedDict()
            for k in d['keys']:
                f = self.inflation_factor if k in d['infl'] else 1
                sd[k] = self._state_initializer.create_parameters(nr_of_particles=self.nr_of_particles, particle_size=self.particle_size if conv else self.particle_size * f,
                                                                  particle_dimension=self.particle_dimension * (f if conv else 1), set_to_zero=set_to_zero)
            return sd

        def create_default_parameter_objects(self):
            po = SortedDict()
            size = {'f': self.in_features, 'g': self.in_features * self.inflation_factor}
            for l, (i, o, b, w) in d['layers'].items():
                w = self.parameter_weight if w == 'w' else w
                if conv:
                    po[l] = oc.SNN_Conv2d(in_channels=size[i], out_channels=size[o], kernel_size=3, padding=1, bias=b, weight=w)
                else:
                    po[l] = oc.SNN_Linear(in_features=size[i], out_features=size[o], bias=b, weight=w)
            return po

        def rhs_advect_state(self, t, state_dict_or_dict_of_dicts, parameter_objects):
            s, p = state_dict_or_dict_of_dicts, parameter_objects
            rhs = SortedDict()
            for k in d['keys']:
                parts = []
                for e in d['terms']:
                    if e[1] == k:
                        if e[0] == 'layer':
                            parts.append(e[5] * p[e[2]](self.nl(s[e[3]]) if e[4] else s[e[3]]))
                        elif e[0] == 'deep':
                            parts.append(e[5] * p[e[2]](self.nl(p[e[4]](s[e[3]]))))
                        elif e[0] == 'product':
                            parts.append(e[4] * torch.tanh(s[e[2]]) * torch.tanh(s[e[3]]))
                        else:
                            parts.append(e[3] * s[e[2]])
                rhs['dot_' + k] = sum(parts[1:], parts[0])
            return rhs

        def get_initial_data_dict_from_data_tensor(self, x):
            dd = SortedDict()
            dd['q1'] = x
            for k in d['keys'][1:]:
                z = x.clone() if d['lift'] == 'copy' else torch.zeros_like(x)
                if k in d['infl']:
                    z = torch.cat([z] * self.inflation_factor, dim=1 if conv else z.dim() - 1)
                dd[k] = z
            return dd

        def disassemble(self, input, dim=1):
            _, _, data = self.disassemble_tensor(input, dim=dim)
            return scd.extract_key_from_dict_of_dicts(data, 'q1')
    return UserModel


def deep_definition(ctx, conv=False):
    """Velocities with one layer applied after another: not affine in the parameters."""
    keys = ['q1'] + ctx.rng.sample(NAMES, ctx.choice([0, 1, 2]))
    free = ctx.rng.sample(LAYERS, len(LAYERS))
    layers, terms = {}, []
    for k in keys:
        a, b, src = free.pop(), free.pop(), ctx.choice(keys)
        for l in (a, b):
            layers[l] = ('f', 'f', ctx.rng.random() < 0.6, 2.0)
        terms.append(('deep', k, a, src, b, ctx.choice([1.0, -0.5])))
        if ctx.rng.random() < 0.4:
            l = free.pop()
            layers[l] = ('f', 'f', ctx.rng.random() < 0.6, 2.0)
            terms.append(('layer', k, l, ctx.choice(keys), ctx.rng.random() < 0.7, 1.0))
    return dict(keys=keys, infl=[], layers=layers, terms=terms, conv=conv, search=True, lift='zero')
