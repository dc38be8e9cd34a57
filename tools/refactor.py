"""refactor.py NAME...: applies a change which keeps the behaviour to a scratch copy and runs checks there; they have to stay quiet"""
import ast
import os
import shutil
import subprocess
import sys
import textwrap
import time

EQ, RES, CH, RE, MO = 'pygmo_fwork/pygmol/equations.py', 'pygmo_fwork/results.py', 'plaschem/chemistry.py', 'plaschem/reactions.py', 'pygmo_fwork/pygmol/model.py'
EQS = ['C11', 'C12', 'C13', 'C14', 'C15', 'C16', 'C18', 'C19']
RF = {
    'eq-numpy': (EQS, {EQ: [
        ('n_tot = np.sum(n)\n        return n_tot', 'return n.sum()'),
        ('n_e = np.sum(n * self.species_charge)\n        return n_e', 'return np.dot(n, self.species_charge)'),
        ('mfp = 1 / np.sum(n[np.newaxis, :] * sigma_sc, axis=1)\n        return mfp', 'return np.reciprocal(sigma_sc @ n)'),
        ('temp_e = max(temp_e, temp_g_ev)', 'temp_e = temp_e if temp_e > temp_g_ev else temp_g_ev'),
        ('return (constants.epsilon_0 * temp_e / constants.e / n_e) ** 0.5', 'return np.sqrt(constants.epsilon_0 * temp_e / (constants.e * n_e))'),
        ('return np.sum(-diff_sinks[np.newaxis, :] * self.return_matrix, axis=1)', 'return -self.return_matrix.dot(diff_sinks)'),
        ('return np.sum(el_en_losses[self.mask_elc] * reaction_rates[self.mask_elc])', 'return np.sum(np.where(self.mask_elc, el_en_losses * reaction_rates, 0.))'),
        ('source_vol = np.sum(self.stoichiomatrix_net * rates[:, np.newaxis], axis=0)\n        return source_vol', 'return rates @ self.stoichiomatrix_net'),
        ('np.e ** (-self.reactions_arrh_c[self.mask_elc] / temp_e)', 'np.exp(-self.reactions_arrh_c[self.mask_elc] / temp_e)'),
        ('np.e ** (-self.reactions_arrh_c[~self.mask_elc] / self.temp_g)', 'np.exp(-self.reactions_arrh_c[~self.mask_elc] / self.temp_g)'),
    ]}),
    'eq-loops': (EQS, {EQ: [
        ('n_tot = np.sum(n)\n        return n_tot', 'total = 0.\n        for x in n:\n            total = total + x\n        return total'),
        ('n_e = np.sum(n * self.species_charge)\n        return n_e', 'return sum(q * x for q, x in zip(self.species_charge, n))'),
        ('mfp = 1 / np.sum(n[np.newaxis, :] * sigma_sc, axis=1)\n        return mfp',
         'return np.array([1. / sum(n_k * s for n_k, s in zip(n, row)) for row in sigma_sc])'),
        ('        return np.interp(t, self.t_pow, self.pow)', '        import bisect\n        if t <= self.t_pow[0]:\n            return self.pow[0]\n'
         '        if t >= self.t_pow[-1]:\n            return self.pow[-1]\n        i = bisect.bisect_right(list(self.t_pow), t) - 1\n'
         '        slope = (self.pow[i + 1] - self.pow[i]) / (self.t_pow[i + 1] - self.t_pow[i])\n        return self.pow[i] + slope * (t - self.t_pow[i])'),
        ('diff_c = np.empty(self.num_species)\n', 'diff_c = np.where(self.mask_neu, diff_c_free, 0.)\n'),
        ('diff_c[self.mask_neu] = diff_c_free[self.mask_neu]  # diffusion coefficients for neutrals\n', ''),
        ('min_n_correction = np.zeros(len(n))\n', 'return np.array([(n_min - x) / t_rec if x < n_min else 0. for x in n])\n        min_n_correction = np.zeros(len(n))\n'),
        ('return vol_source_rates + flow_source_rates + diff_source_rates + min_n_correction',
         'return np.sum([vol_source_rates, flow_source_rates, diff_source_rates, min_n_correction], axis=0)'),
        ('return np.r_[dn_dt, drho_dt]', 'return np.append(dn_dt, drho_dt)'),
        ('return np.float64(min_rho_correction)', 'return float(min_rho_correction)'),
        ('return 3/2 * temp_e * np.sum(self.stoichiovector_electron_net * reaction_rates)',
         'gained = self.stoichiovector_electron_net * reaction_rates\n        return 1.5 * temp_e * gained.sum()'),
    ]}),
    'eq-structure': (EQS, {EQ: [
        ('n_reactants = np.r_[n_e, n, n_tot]', 'n_reactants = np.concatenate(([n_e], n, [n_tot]))'),
        ('n_reactants_prod = np.prod(n_reactants[np.newaxis, :] ** self.stoichiomatrix_reactants_lhs, axis=1)',
         'n_reactants_prod = np.power(n_reactants, self.stoichiomatrix_reactants_lhs).prod(axis=1)'),
        ('rates = k_r * n_reactants_prod\n', 'rates = np.multiply(k_r, n_reactants_prod)\n'),
        ('self.v_m[~self.mask_neu] = ', 'charged = np.flatnonzero(~self.mask_neu)\n        self.v_m[charged] = '),
        ('gamma = temp_e * constants.e / constants.k / temp_i', 'gamma = temp_e / (temp_i * constants.k / constants.e)'),
        ('alpha = n[self.mask_neg].sum() / n_e', 'alpha = np.dot(n, self.mask_neg) / n_e'),
        ('diff_free_pos = diff_c_free[self.mask_pos].mean()', 'diff_free_pos = np.mean([d for d, m in zip(diff_c_free, self.mask_pos) if m])'),
        ('tot_el_outflux = np.sum(self.species_charge * diff_source_rates)\n', 'tot_el_outflux = np.inner(self.species_charge, diff_source_rates)\n'),
        ('source_diff_sinks = wall_fluxes * self.area / self.volume\n        return source_diff_sinks', 'ratio = self.area / self.volume\n        return wall_fluxes * ratio'),
    ]}),
}

ERR, GR, RED, MOR, GM = ('pygmo_fwork/optichem/errors.py', 'pygmo_fwork/optichem/graph.py', 'pygmo_fwork/optichem/reduction.py',
                         'pygmo_fwork/optichem/morris.py', 'pygmo_fwork/global_model.py')
RF['errors'] = (['C22', 'C28'], {ERR: [
    ('def _array_rms', '''
     @staticmethod
     def _array_rms(array):
         array = np.asarray(array)
         return (np.dot(array, array) / len(array)) ** 0.5
     '''),
    ('def _get_result_in_time', '''
     @staticmethod
     def _get_result_in_time(solution, model_output, time):
         if model_output not in solution.columns:
             raise AssertionError('Output {} not in the passed solution!'.format(model_output))
         ts = solution['t'].values
         assert ts[0] <= time <= ts[-1], 'Time t={}s outside of the solution time frame!'.format(time)
         return float(np.interp(time, ts, solution[model_output].values))
     '''),
    ('def get_output_errors', '''
     def get_output_errors(self, sol_red, model_output, times):
         pairs = [(self._get_result_in_time(self.sol_full, model_output, t), self._get_result_in_time(sol_red, model_output, t)) for t in times]
         peak = max(full for full, _ in pairs)
         return np.array([2 * (red - full) / (full + peak) for full, red in pairs])
     '''),
    ('def get_output_error_max', '''
     def get_output_error_max(self, sol_red, model_output, times):
         return np.abs(self.get_output_errors(sol_red, model_output, times)).max()
     '''),
    ('def get_error_max', '''
     def get_error_max(self, sol_red, important_outputs, times):
         worst = None
         for output in important_outputs:
             err = self.get_output_error_max(sol_red, output, times)
             if worst is None or err > worst:
                 worst = err
         return worst
     '''),
]})
RF['graph-paths'] = (['C23', 'C24'], {GR: [
    ('def find_max_bottleneck_paths', '''
     def find_max_bottleneck_paths(self, target_node, edge_attribute='weight', weighting_func=None, inverse=None):
         assert self.weights_distributed, 'Cannot run any graph theory algorithms - weights not yet distributed!'
         weighting_func, inverse = self._default_weighting_functions(weighting_func, inverse)
         widths = dict.fromkeys(self.nodes, 0.)
         widths[target_node] = float('inf')
         following = dict.fromkeys(self.nodes)
         left = set(self.nodes)
         while left:
             node = max(left, key=widths.get)
             left.discard(node)
             for before in self.predecessors[node] & left:
                 width = weighting_func(self.edge_attributes[before, node][edge_attribute])
                 assert width >= 0, 'Algo works only with non-negative edge weights!'
                 alt = width if width < widths[node] else widths[node]
                 if alt > widths[before]:
                     widths[before], following[before] = alt, node
         paths = {}
         for source in self.nodes:
             path = [source]
             while path[-1] != target_node and path[-1] is not None:
                 path.append(following[path[-1]])
             paths[source] = path
         return paths, {node: inverse(w) for node, w in widths.items()}
     '''),
    ('def find_shortest_paths', '''
     def find_shortest_paths(self, target_node, edge_attribute='weight', weighting_func=None, inverse=None):
         assert self.weights_distributed, 'Cannot run any graph theory algorithms - weights not yet distributed!'
         weighting_func, inverse = self._default_weighting_functions(weighting_func, inverse)
         lengths = {node: float('inf') for node in self.get_nodes()}
         lengths[target_node] = 0
         following = {node: None for node in self.get_nodes()}
         costs = {}
         for (u, v), attrs in self.edge_attributes.items():
             costs[u, v] = weighting_func(attrs[edge_attribute])
             assert costs[u, v] >= 0, 'Algo works only with non-negative edge weights!'
         # Bellman-Ford
         for _ in range(len(self.nodes)):
             changed = False
             for (u, v), cost in costs.items():
                 if u != target_node and lengths[v] + cost < lengths[u]:
                     lengths[u] = lengths[v] + cost
                     following[u] = v
                     changed = True
             if not changed:
                 break
         paths = {source: [source] for source in self.get_nodes()}
         for source, path in paths.items():
             while path[-1] != target_node and path[-1] is not None:
                 path.append(following[path[-1]])
         return paths, {node: np.nan if node == target_node else inverse(l) for node, l in lengths.items()}
     '''),
    ('def get_max_flow', '''
     def get_max_flow(self, source_node, target_node, edge_attribute='weight', weighting_func=None, inverse=None):
         assert self.weights_distributed, 'Cannot run any graph theory algorithms - weights not yet distributed!'
         weighting_func, inverse = self._default_weighting_functions(weighting_func, inverse)
         rest = {n: {} for n in self.nodes | {source_node, target_node}}
         for (u, v), attrs in self.edge_attributes.items():
             cap = weighting_func(attrs[edge_attribute])
             assert cap >= 0, 'Algo works only with non-negative edge weights!'
             rest[u][v] = cap
             rest[v].setdefault(u, 0.)

         def path():
             before, queue = {source_node: None}, [source_node]
             for u in queue:
                 for v in sorted(rest[u]):
                     if v not in before and rest[u][v] > 0:
                         before[v] = u
                         if v == target_node:
                             steps = []
                             while before[v] is not None:
                                 steps.append((before[v], v))
                                 v = before[v]
                             return steps
                         queue.append(v)
             return None

         flow = 0
         steps = path()
         while steps is not None:
             least = min(rest[u][v] for u, v in steps)
             flow += least
             for u, v in steps:
                 rest[u][v] -= least
                 rest[v][u] += least
             steps = path()
         return inverse(flow)
     '''),
]})
RF['graph-weights'] = (['C23', 'C24'], {GR: [
    ('            r = (abs(self.stoichiomatrix_net[np.newaxis, :, np.newaxis, :]) *\n                 self.rates[:, :, np.newaxis, np.newaxis] *\n'
     '                 self.delta_ji[np.newaxis, :, :, np.newaxis]).sum(axis=1)\n            r += abs(',
     '            r = np.einsum(\'jb,tj,ja->tab\', abs(self.stoichiomatrix_net), self.rates, self.delta_ji)\n            r += abs('),
    ('        norm[norm == 0] = np.nan  #', '        norm = np.where(norm == 0, np.nan, norm)  #'),
    ('            norm = np.maximum(tot_prod, tot_cons)', '            norm = np.where(tot_prod > tot_cons, tot_prod, tot_cons)'),
    ('        r /= norm[:, np.newaxis, :]', '        r = r / norm[:, np.newaxis, :]'),
]})
RF['model'] = (['C16', 'C18', 'C19'], {MO: [
    ('def _parse_raw_sol', '''
     def _parse_raw_sol(self):
         self.t = np.array(self.sol_raw.t)
         self.sol_primary = np.array(self.sol_raw.y).transpose()
     '''),
    ('def _post_process', '''
     def _post_process(self):
         data = {'t': self.t}
         for i, name in enumerate(self.chemistry.get_species_name()):
             data[name] = self.sol_primary[:, i]
         data['e'] = [self.equations.get_electron_density(y) for y in self.sol_primary]
         data['Te'] = [self.equations.get_electron_temperature(y) for y in self.sol_primary]
         data['Tg'] = self.model_params['Tg']
         data['p'] = list(self.diagnose('total_pressure')['value'])
         self.sol_secondary = pd.DataFrame(data)
     '''),
    ('def get_rates_final', '''
     def get_rates_final(self):
         rates = self.get_rates()
         return rates.drop(columns='t').iloc[-1]
     '''),
    ('def get_wall_fluxes_final', '''
     def get_wall_fluxes_final(self):
         fluxes = self.get_wall_fluxes()
         return fluxes.loc[fluxes.index[-1], [c for c in fluxes.columns if c != 't']]
     '''),
    ('def _y0_from_init_params', '''
     def _y0_from_init_params(self, init_el_temp, init_n):
         if init_n is None:
             return self._build_y0(el_temp=init_el_temp)
         names = list(self.chemistry.get_species_name())
         if set(init_n.keys()) != set(names):
             raise InitialSolutionError('The init_n dict needs to contain all the species names as keys!')
         n = np.array([init_n[name] for name in names])
         n_e = np.dot(n, np.array(self.chemistry.get_species_charge()))
         return np.append(n, 1.5 * n_e * init_el_temp)
     '''),
]})
RF['results-1'] = (['C21', 'C22'], {RES: [
    ('def get_results_frames', '''
     @staticmethod
     def get_results_frames(results_df, times):
         first, last = results_df['t'].iloc[0], results_df['t'].iloc[-1]
         assert all(first <= t <= last for t in times), 'times outside the results_df range'
         times = np.array(times, dtype=float)
         x = results_df['t'].to_numpy(dtype=float)
         out = results_df.iloc[:0].reindex(range(len(times)))
         for col in results_df.columns:
             out[col] = times if col == 't' else np.interp(times, x, results_df[col].to_numpy(dtype=float))
         return out
     '''),
    ('def get_surface_rates', '''
     @staticmethod
     def get_surface_rates(sp, chemistry, model_params, wall_fluxes_frame, annotate=False):
         ResultsParser._assert_consistency(sp=sp, chemistry=chemistry, wall_fluxes_frame=wall_fluxes_frame)
         rp = chemistry.get_rp(sp)
         if rp.is_special():
             warnings.warn('Surface rates not defined for the species {}!'.format(sp))
             return pd.Series(dtype=np.float64)
         ret = chemistry.get_return_matrix(disabled=False, special=False)
         r, z = model_params['radius'], model_params['length']
         scale = 2 * (r + z) / (r * z)
         names = chemistry.get_species_name()
         flux = {chemistry.get_rp(name).id: value for name, value in wall_fluxes_frame.items() if name != 't'}
         assert list(flux) == list(ret.index) == list(ret.columns), 'Inconsistent return matrix and wall fluxes frame!'
         ids, values = [], []
         for other in ret.columns:
             rate = (flux[other] if other == rp.id else 0.) - ret.loc[rp.id, other] * flux[other]
             rate = rate * scale
             if rate == 0:
                 continue
             values.append(rate)
             if not annotate:
                 ids.append(other)
             elif other == rp.id:
                 ids.append('{: <10}{}'.format('S{}'.format(other), '{} + wall > wall'.format(names[rp.id])))
             else:
                 ids.append('{: <10}{}'.format('S{}'.format(other), '{} + wall > {} + wall'.format(names[other], names[rp.id])))
         return pd.Series(values, index=ids)
     '''),
    ('def compare', '''
     def compare(self, runs, relative_to_first=False, printout=True):
         rows, names = [], []
         for run in runs:
             ids = self._parse_run_identifiers(run)
             if ids['backend'] is not None:
                 parent = ids['backend']
             else:
                 parent = os.path.basename(self.nominal_results_dir if ids['results_dir'] is None else ids['results_dir'])
             name = os.path.join('...{}'.format(parent), ids['run_id'])
             names.append(name if len(name) <= 40 else '...' + name[-40:])
             rows.append(self.fetch_solution(**ids).iloc[-1])
         df = pd.concat(rows, axis=1, keys=names).T
         if relative_to_first:
             first = df.iloc[0]
             df = df.sub(first, axis=1).div(first, axis=1) * 100.
         if printout:
             fmt = '{:.2f}' if relative_to_first else '{:.2E}'
             with pd.option_context('display.float_format', fmt.format):
                 print()
                 print(df)
                 print()
         return df
     '''),
    ('def compress_solution', '''
     @staticmethod
     def compress_solution(full_sol, diff_threshold=0.05, min_timestep=0.001):
         least = full_sol['t'].iloc[-1] * min_timestep
         last = len(full_sol) - 1
         keep = list(range(min(1, len(full_sol))))
         front = full_sol.iloc[0]
         others = [c for c in full_sol.columns if c != 't']
         for i in range(1, len(full_sol)):
             row = full_sol.iloc[i]
             if i < last:
                 if abs(row['t'] - front['t']) < least:
                     continue
                 if all(abs(row[c] - front[c]) / abs(front[c]) < diff_threshold for c in others):
                     continue
             keep.append(i)
             front = row
         return full_sol.iloc[keep]
     '''),
    ('def print_production_processes', '''
     @staticmethod
     def print_production_processes(sp, chemistry, model_params, rates_frame, wall_fluxes_frame, n=None, unit='m-3/s'):
         vol = ResultsParser.get_volumetric_rates(sp, chemistry, rates_frame, annotate=True)
         surf = ResultsParser.get_surface_rates(sp, chemistry, model_params, wall_fluxes_frame, annotate=True)
         pairs = [(k, v) for s in (vol, surf) for k, v in s.items() if v > 0]
         pairs.sort(key=lambda kv: kv[1], reverse=True)
         shown = pairs if n is None else pairs[:n]
         factor = ResultsParser.unit_conversion_factors[unit]
         print('\\nProcesses and rates of production for {} [{}]:'.format(sp, unit))
         print(pd.Series([v * factor for _, v in shown], index=[k for k, _ in shown]).to_string())
         if len(shown) < len(pairs):
             print('{: ^50}'.format('...'))
         print()
     '''),
]})

REA, SP, CL = 'plaschem/reactions.py', 'plaschem/species.py', 'plaschem/classification.py'
RF['chemistry-tables'] = (['C03', 'C05', 'C02', 'C07', 'C11'], {CH: [
    ('def get_stoichiomatrix', '''
     def get_stoichiomatrix(self, disabled=False, special=False, method='net'):
         ids = list(self.get_species(disabled=disabled, special=special, protected=True).index)
         reactions = self.get_reactions(disabled=disabled)
         rows = []
         for r in reactions:
             coefs = r.get_stoich_coefs(method=method)
             rows.append([coefs.get(sp_id, 0) for sp_id in ids])
         table = np.array(rows, dtype=int).reshape(len(reactions), len(ids))
         return pd.DataFrame(table, columns=pd.Index(ids), index=reactions.index)
     '''),
    ('def get_return_matrix', '''
     def get_return_matrix(self, disabled=False, special=False):
         ret_coefs = self.get_species_ret_coefs(disabled=disabled, special=special)
         ids = list(ret_coefs.index)
         position = {sp_id: k for k, sp_id in enumerate(ids)}
         table = np.zeros((len(ids), len(ids)))
         for sp_id, coefs in ret_coefs.items():
             for name, coef in (coefs or {}).items():
                 row = position.get(self.get_rp(name).id)
                 if row is not None:
                     table[row, position[sp_id]] = coef
         if special:
             for k, sp_id in enumerate(ids):
                 if self._special_sp[sp_id]:
                     table[k, :] = np.nan
                     table[:, k] = np.nan
         return pd.DataFrame(table, index=ret_coefs.index, columns=ret_coefs.index)
     '''),
    ('def get_reactions_stoich_coefs_electron', '''
     def get_reactions_stoich_coefs_electron(self, disabled=False, method='net'):
         electron_id = self.get_rp('e').id
         return self.get_reactions(disabled=disabled).map(lambda r: r.get_stoich_coefs(method=method).get(electron_id, 0))
     '''),
    ('def get_species_ret_coefs', '''
     def get_species_ret_coefs(self, disabled=False, special=False, protected=True):
         species = self.get_species(disabled=disabled, special=special, protected=protected)
         adhoc = self.adhoc_species_attributes['ret_coefs']
         sticks = self.get_species_stick_coef(disabled=disabled, special=special, protected=protected)
         live = set(sp.get_name() for sp, on in zip(self._species, self._enabled_sp) if on)
         out = []
         for sp_id, sp in species.items():
             coefs = adhoc.at[sp_id] if sp_id in adhoc.index else sp.get_ret_coefs()
             if sticks.at[sp_id] == 0:
                 coefs = {}
             if coefs is not None:
                 coefs = {name: coef for name, coef in coefs.items() if name in live}
             out.append(coefs)
         return pd.Series(out, index=species.index, dtype=object)
     '''),
    ('def get_reactions_arrh_a', '''
     def get_reactions_arrh_a(self, disabled=False, si_units=True):
         adhoc = self.adhoc_reactions_attributes['arrh_a']
         values = {}
         for r_id, r in self.get_reactions(disabled=disabled).items():
             if r_id in adhoc.index:
                 factor = Reaction.si_conversion_factors['arrh_a'][r.get_unit('arrh_a')] if si_units else 1.
                 values[r_id] = adhoc[r_id] * factor
             else:
                 values[r_id] = r.get_arrh_a(si_units=si_units)
         return pd.Series(values)
     '''),
    ('def get_species_mask', '''
     def get_species_mask(self, disabled, special, protected):
         def wanted(sp_id):
             return ((disabled or self._enabled_sp[sp_id]) and (special or not self._special_sp[sp_id])
                     and (protected or not (self._protected_sp[sp_id] or self._adhoc_protected_sp[sp_id])))
         return np.array([wanted(sp_id) for sp_id in self._species.index], dtype=bool)
     '''),
]})
RF['chemistry-disable'] = (['C04', 'C06', 'C07', 'C20'], {CH: [
    ('def _disable_recursively', '''
     def _disable_recursively(self, species_ids=(), reactions_ids=()):
         lhs = self.get_stoichiomatrix(disabled=True, special=True, method='lhs')
         rhs = self.get_stoichiomatrix(disabled=True, special=True, method='rhs')
         involved = ((lhs + rhs) > 0).values
         sp_pos = list(self._species.index)
         r_pos = list(self._reactions.index)
         species_ids, reactions_ids = list(species_ids), list(reactions_ids)
         while True:
             new_sp = [i for i in species_ids if self._enabled_sp.at[i]]
             new_r = [i for i in reactions_ids if self._enabled_r.at[i]]
             if not new_sp and not new_r:
                 return
             protected = self._protected_sp | self._adhoc_protected_sp
             if any(protected.at[i] for i in species_ids):
                 raise ChemistryDisableError('Some of the species cannot be disabled!')
             for i in new_sp:
                 self._enabled_sp.at[i] = False
             for i in new_r:
                 self._enabled_r.at[i] = False
             if self.requires_charge:
                 ions = [sp for sp in self.get_species() if sp.get_charge() > 0]
                 if not ions:
                     raise ChemistryDisableError('The last positive ion cannot be disabled!')
                 if len(ions) == 1:
                     self._adhoc_protected_sp.at[ions[0].id] = True
             species_ids = [i for k, i in enumerate(sp_pos) if self._enabled_sp.at[i]
                            and not any(involved[j, k] for j, r in enumerate(r_pos) if self._enabled_r.at[r])]
             reactions_ids = [r for j, r in enumerate(r_pos) if self._enabled_r.at[r]
                              and any(involved[j, k] for k, i in enumerate(sp_pos) if not self._enabled_sp.at[i])]
     '''),
    ('def reset', '''
     def reset(self):
         self._enabled_sp = self._enabled_sp | True
         self._enabled_r = self._enabled_r | True
         self._adhoc_protected_sp = self._adhoc_protected_sp & False
     '''),
    ('def _chemistry_attributes', '''
     def _chemistry_attributes(self):
         def ids(mask, value=True):
             return [i for i, on in mask.items() if bool(on) is value]

         def adhoc(tables, types):
             return [[str(attr), int(i), types[attr][0](value)] for attr, table in tables.items() for i, value in table.items()]
         path = self.xml_path or None
         return {
             'xml_path': None if path is None else str(path),
             'xml_hash': None if path is None else str(self.xml_hash(path)),
             'species_ids': {'enabled': ids(self._enabled_sp), 'disabled': ids(self._enabled_sp, False),
                             'protected': ids(self._protected_sp), 'adhoc_protected': ids(self._adhoc_protected_sp)},
             'reactions_ids': {'enabled': ids(self._enabled_r), 'disabled': ids(self._enabled_r, False)},
             'adhoc_species_attributes': adhoc(self.adhoc_species_attributes, RP.allowed_attribute_types),
             'adhoc_reactions_attributes': adhoc(self.adhoc_reactions_attributes, Reaction.allowed_attribute_types),
         }
     '''),
    ('def set_protected_species', '''
     def set_protected_species(self, *args):
         known = set(self._species.index)
         ids = [arg if not isinstance(arg, (str, RP)) and arg in known else self.get_rp(arg).id for arg in args]
         for i in ids:
             self._protected_sp.at[i] = True
     '''),
]})
RF['reactions'] = (['C01', 'C02', 'C03', 'C08', 'C09', 'C11'], {REA: [
    ('def get_stoich_coefs', '''
     def get_stoich_coefs(self, method='net'):
         sign = {'lhs': (1, 0), 'rhs': (0, 1), 'net': (-1, 1)}.get(method)
         if sign is None:
             raise ReactionValueError('Unsupported value of the method argument: {}'.format(method))
         coefs = OrderedDict((i, 0) for i in self.get_rp_ids_set(method='all' if method == 'net' else method))
         for factor, side in zip(sign, (self.get_reactants(), self.get_products())):
             for sp in side:
                 if factor:
                     coefs[sp.id] += factor
         return coefs
     '''),
    ('def assert_consistency', '''
     def assert_consistency(self):
         charge = 0
         atoms = {}
         for sign, side in ((1, self.get_reactants()), (-1, self.get_products())):
             for sp in side:
                 if sp.get_name() != 'M':
                     charge += sign * sp.get_charge()
                 for atom, count in sp.get_atoms().items():
                     atoms[atom] = atoms.get(atom, 0) + sign * count
         if charge:
             raise ReactionValueError('Charge conservation in Reaction {} is violated'.format(self.id))
         if any(atoms.values()):
             raise ReactionValueError('Atoms counts conservation of Reaction {} is violated!'.format(self.id))
     '''),
    ('def get_rate_coefficient', '''
     def get_rate_coefficient(self, temp, si_units=True):
         a = self.get_arrh_a(si_units=si_units)
         if a is None:
             raise ReactionValueError('Cannot get a coefficient for a reaction without Arrhenius data!')
         reduced = temp if self.is_electron_process() else temp / 300.
         return a * np.power(reduced, self.get_arrh_b()) / np.exp(self.get_arrh_c() / temp)
     '''),
    ('def get_elastic', '''
     def get_elastic(self):
         if self._elastic is not None:
             return str(self._elastic).lower() == 'true'
         names = [set(sp.get_name() for sp in side) for side in (self.get_reactants(), self.get_products())]
         return names[0] == names[1]
     '''),
    ('def get_rp_names_set', '''
     def get_rp_names_set(self, method='all'):
         sides = {'lhs': [self.get_reactants()], 'rhs': [self.get_products()], 'all': [self.get_reactants(), self.get_products()]}
         if method not in sides:
             raise ReactionValueError('Unsupported value of the method argument: {}'.format(method))
         return tuple(dict.fromkeys(rp.get_name() for side in sides[method] for rp in side))
     '''),
], SP: [
    ('def get_ret_coefs', '''
     def get_ret_coefs(self):
         if self.is_special():
             return None
         if self._ret_coefs is None:
             excited_or_charged = self.get_state() is not None or self.get_charge() != 0
             return {self.strip_charge(self.get_stateless()): 1.} if excited_or_charged else {}
         out = dict()
         for name, value in self._ret_coefs.items():
             out[name] = float(value)
         return out
     '''),
    ('def strip_charge', '''
     @staticmethod
     def strip_charge(stateless_name):
         return str(re.sub(r'([+-]+|[+-][0-9]+)$', '', stateless_name))
     '''),
]})
RF['classification'] = (['C09', 'C10'], {CL: [
    ('def _species_index', '''
     def _species_index(self, sp):
         if sp.id not in self._memo_species_index:
             self._memo_species_index.update({s.id: i for i, s in reversed(list(enumerate(self.species)))})
         return self._memo_species_index[sp.id]
     '''),
    ('        charges_r = np.array([sp.get_charge() if sp.get_charge() is not None else 0 for sp in reactants])',
     '        charges_r = np.array([sp.get_charge() or 0 for sp in reactants])'),
    ('        charges_p = np.array([sp.get_charge() if sp.get_charge() is not None else 0 for sp in products])',
     '        charges_p = np.array([0 if sp.get_name() == \'M\' else sp.get_charge() for sp in products])'),
    ('def _init_classified_reactions_dict', '''
     def _init_classified_reactions_dict(self):
         self._classified_reactions = OrderedDict(
             (r_type, OrderedDict((category, []) for category in categories)) for r_type, categories in self.classification_scheme)
     '''),
]})
RF['morris'] = (['C25', 'C26', 'C27'], {MOR: [
    ('def _trajectory', '''
     def _trajectory(self, seed_x):
         x = np.array(seed_x)
         if len(x) < 2:
             raise MorrisInputsError('The vector of factors needs to be at least 2D!')
         if any(val not in self.grid for val in x):
             raise MorrisInputsError('The factors need to be on the grid!')
         for i in np.random.permutation(np.arange(len(x))):
             steps = np.round(np.random.permutation([-self.delta_magnitude, self.delta_magnitude]), decimals=5)
             legal = [d for d in steps if 0. < x[i] + d < 1.]
             if not legal:
                 raise MorrisTrajectoryError('Vector of factors outside a unit hypercube! Should never happen!')
             nxt = np.array(x)
             nxt[i] = np.round(x[i] + legal[0], decimals=5)
             x = nxt
             yield i, legal[0], x
     '''),
    ('def _map_species_factors_to_k', '''
     def _map_species_factors_to_k(self, x, nominal_k, chemistry):
         assert chemistry is not self.chemistry
         for argument in [x, nominal_k]:
             if not isinstance(argument, (np.ndarray, pd.Series)):
                 raise TypeError('Arguments to this method need to be either np.array, or pd.Series!')
         lhs, rhs = (chemistry.get_stoichiomatrix(method=m) for m in ('lhs', 'rhs'))
         if isinstance(x, pd.Series) and list(x.index) != list(lhs.columns):
             raise MorrisInputsError('Mismatching index of x vector and chemistry species!')
         if isinstance(nominal_k, pd.Series) and list(nominal_k.index) != list(lhs.index):
             raise MorrisInputsError('Mismatching index of x vector and chemistry reactions!')
         if len(x) != chemistry.num_species() or len(nominal_k) != chemistry.num_reactions():
             raise MorrisInputsError('Cannot map vector of factors X to the vector of nominal arrh_a values!')
         involved = (lhs.values + rhs.values) > 0
         factors = np.where(involved, 2 * np.array(x)[np.newaxis, :], 1.).prod(axis=1)
         return nominal_k * factors
     '''),
    ('def _get_next_traj_id', '''
     def _get_next_traj_id(self, logs_dir):
         ids = (self.traj_id.format(i) for i in range(1, 999))
         free = next((t for t in ids if not os.path.exists(os.path.join(logs_dir, t, 'meta.yaml'))), None)
         if free is None:
             raise MorrisLogError('Could not find a suitable trajectory id!')
         return free
     '''),
]})

GP, XM, LT, SPC, CFG = 'pygmo_fwork/pygmol/model_parameters.py', 'plaschem/xml_inputs.py', 'plaschem/latex.py', 'plaschem/species.py', 'pygmo_fwork/config.py'
RF['global-model'] = (['C16', 'C20', 'C28'], {GM: [
    ("        charges = np.array(self.model.chemistry.get_species_charge())  # charges of all heavy sp in [e]\n        feeds = np.array(\n            [feeds_dict[sp] if sp in feeds_dict else 0. for sp in species_names]\n        )  # feeds in [sccm]\n",
     "        charges = np.asarray(list(self.model.chemistry.get_species_charge()))\n        feeds = np.array([feeds_dict.get(sp, 0.) for sp in species_names])\n"),
    ("        n0 = np.zeros(len(charges))\n        n0[charges > 0] = n_pos_tot / sum(charges[charges > 0])  # initial densities of positive ions\n",
     "        positive = charges > 0\n        n0 = np.zeros(charges.size)\n        n0[positive] = n_pos_tot / charges[positive].sum()\n"),
    ("        if feeds.sum() > 0:\n            n_residual = n_tot - n0.sum()\n            n0[feeds > 0] = feeds[feeds > 0] / feeds.sum() * n_residual\n",
     "        fed = feeds > 0\n        if np.any(fed):\n            share = feeds / np.sum(feeds)\n            n_residual = n_tot - np.sum(n0)\n            n0[fed] = n_residual * share[fed]\n"),
    ("            n_residual = n_tot - n0[charges != 0].sum()\n            n0[charges == 0] = n_residual / len(n0[charges == 0])\n",
     "            neutral = charges == 0\n            n0[neutral] = (n_tot - n0[~neutral].sum()) / np.count_nonzero(neutral)\n"),
    ("        n0 = [float(n) for n in n0]\n        init_n = dict(zip(species_names, n0))\n", "        init_n = {name: float(n) for name, n in zip(species_names, n0)}\n"),
    ("        total_charge_density = sum(species_charges*species_densities)\n        if not total_charge_density > 0:\n",
     "        total_charge_density = np.dot(species_charges, species_densities)\n        if total_charge_density <= 0:\n"),
    ("        if not set(init_n) == set(species_names):\n", "        if set(init_n.keys()).symmetric_difference(species_names):\n"),
    ("        values_start = pd.Series(\n            [np.interp(t_start, solution['t'], solution[a]) for a in solution.columns], index=solution.columns\n        )\n",
     "        values_start = pd.Series(index=solution.columns, data=[np.interp(t_start, timesteps, solution[a]) for a in solution])\n"),
    ("        rel_diff = (values_end - values_start) / (values_end + values_start) * 2\n", "        rel_diff = 2 * (values_end - values_start) / (values_end + values_start)\n"),
    ("        rel_diff = rel_diff.drop(outputs_to_ignore)\n        convergency = abs(rel_diff) <= eps\n", "        rel_diff = rel_diff.drop('t')\n        convergency = rel_diff.abs() <= eps\n"),
    ("        if os.path.isdir(run_results_dir):\n            if overwrite:\n                shutil.rmtree(run_results_dir)\n            else:\n                raise GlobalModelLogError('The {} results subdirectory already exists!'.format(run_id))\n",
     "        exists = os.path.isdir(run_results_dir)\n        if exists and not overwrite:\n            raise GlobalModelLogError('The {} results subdirectory already exists!'.format(run_id))\n        if exists:\n            shutil.rmtree(run_results_dir)\n"),
    ("        sol.to_csv(os.path.join(run_results_dir, Config.default_log_name('solution', run_id=run_id)))\n        rates.to_csv(os.path.join(run_results_dir, Config.default_log_name('rates', run_id=run_id)))\n        wall_fluxes.to_csv(os.path.join(run_results_dir, Config.default_log_name('wall_fluxes', run_id=run_id)))\n",
     "        for what, frame in (('solution', sol), ('rates', rates), ('wall_fluxes', wall_fluxes)):\n            frame.to_csv(os.path.join(run_results_dir, Config.default_log_name(what, run_id=run_id)))\n"),
    ("        init_n is None:\n            init_n = self.generate_initial_n()\n        else:\n            self.validate_initial_n(init_n)\n" if False else
     "        if init_n is None:\n            init_n = self.generate_initial_n()\n        else:\n            self.validate_initial_n(init_n)\n",
     "        if init_n is not None:\n            self.validate_initial_n(init_n)\n        else:\n            init_n = self.generate_initial_n()\n"),
    ("        if self.last_run_success is None:\n            raise BackendNoRunError('Backend model has not been run!')\n        return self.last_run_success\n",
     "        done = self.last_run_success\n        if done is not None:\n            return done\n        raise BackendNoRunError('Backend model has not been run!')\n"),
]})

RF['parameters'] = (['C17', 'C20'], {GP: [
    ("        if len(power_array) < 2:\n            raise ModelParametersConsistencyError('\"power\" parameter needs to have length at least 2!')\n        for power in power_array:\n            self.assert_is_number(power, number_type='non-negative')\n        if self._time_array is not None and len(self._time_array) != len(power_array):\n            raise ModelParametersConsistencyError('\"power\" and \"t_power\" parameters are inconsistent sizes!')\n        self._power_array = list(power_array)\n",
     "        values = [power for power in power_array]\n        if len(values) < 2:\n            raise ModelParametersConsistencyError('\"power\" parameter needs to have length at least 2!')\n        for k in range(len(values)):\n            self.assert_is_number(values[k], number_type='non-negative')\n        if self._time_array is None or len(self._time_array) == len(values):\n            self._power_array = values\n        else:\n            raise ModelParametersConsistencyError('\"power\" and \"t_power\" parameters are inconsistent sizes!')\n"),
    ("        if self.is_collection(self._time_array):\n            return list(self._time_array)\n        else:\n            return self._time_array\n", "        times = self._time_array\n        return times[:] if isinstance(times, list) else times\n"),
    ("        if self._time_array[0] > 0.:\n            raise ModelParametersConsistencyError('The \"t_power\" parameter needs to start with t_i <= 0.0 s!')\n        if self._time_array[-1] < 1.1 * t_end:\n            raise",
     "        first, last = self._time_array[0], self._time_array[-1]\n        if not first <= 0:\n            raise ModelParametersConsistencyError('The \"t_power\" parameter needs to start with t_i <= 0.0 s!')\n        if not last >= t_end * 1.1:\n            raise"),
    ("    for key in nominal2alternative_map:\n        alt_keys = nominal2alternative_map[key]\n        keys = len(alt_keys) * (key,)\n        alternative2nominal_map.update(dict(zip(alt_keys, keys)))\n",
     "    for key, alt_keys in nominal2alternative_map.items():\n        for alt_key in alt_keys:\n            alternative2nominal_map[alt_key] = key\n"),
    ("        passed_nominal_keys = set()\n        for key in all_passed_params:\n            if key in self.alternative2nominal_map:\n                passed_nominal_keys.add(self.alternative2nominal_map[key])\n            else:\n                raise ModelParametersError('Passed parameters include unsupported key: {}'.format(key))\n",
     "        unknown = [key for key in all_passed_params if key not in self.alternative2nominal_map]\n        if unknown:\n            raise ModelParametersError('Passed parameters include unsupported keys: {}'.format(unknown))\n        passed_nominal_keys = {self.alternative2nominal_map[key] for key in all_passed_params}\n"),
    ("        if nom_key == 'feeds':\n            return dict(self.parameters[nom_key])  # convert it back from custom dict to regular dict\n        elif nom_key == 'power':\n            return self.parameters[nom_key].get_power()  # extract the iterable from the custom power class\n        elif nom_key == 't_power':\n            return self.parameters[nom_key].get_time()  # extract the iterable from the custom power class\n        # regular parameters (Numbers):\n        return self.parameters[nom_key]\n",
     "        value = self.parameters[nom_key]\n        convert = {'feeds': lambda: {k: v for k, v in value.items()}, 'power': lambda: value.get_power(), 't_power': lambda: value.get_time()}\n        return convert.get(nom_key, lambda: value)()\n"),
    ("    def values(self):\n        return dict(self).values()\n\n    def items(self):\n        return dict(self).items()",
     "    def _plain(self):\n        return {key: self[key] for key in self}\n\n    def values(self):\n        return self._plain().values()\n\n    def items(self):\n        return self._plain().items()"),
]})
RF['reduction'] = (['C28'], {RED: [
    ("        self.all_eligible_species = set(\n            sp for sp in self.all_eligible_species if str(sp) not in self.important_outputs and sp not in feed_species\n        )\n        if not len(self.all_eligible_species):\n",
     "        kept = feed_species.union(self.important_outputs)\n        self.all_eligible_species = {sp for sp in self.all_eligible_species if sp not in kept}\n        if not self.all_eligible_species:\n"),
    ("        self.reduction_history.loc[0, ['error_base_max', 'error_base_rms']] = [0., 0.]\n        self.reduction_history.loc[0, ['error_last_max', 'error_last_rms']] = [0., 0.]\n",
     "        for what in ('error_base_max', 'error_base_rms', 'error_last_max', 'error_last_rms'):\n            self.reduction_history.loc[0, what] = 0.\n"),
    ("        assert self.meta == yaml.load(\n            open(os.path.join(self.reduction_run_dir, self.meta_filename)), Loader=yaml.FullLoader\n        )\n",
     "        with open(os.path.join(self.reduction_run_dir, self.meta_filename)) as stream:\n            assert yaml.load(stream, Loader=yaml.FullLoader) == self.meta\n"),
    ("        self.species_remove_attempted.add(species)\n        index = len(self.species_remove_attempted)\n        assert index == list(self.reduction_history.index)[-1] + 1  # check that everything makes sense\n",
     "        self.species_remove_attempted |= {species}\n        index = self.reduction_history.index[-1] + 1\n"),
    ("        restore_mask = self.reduction_history['run_id'].isin(self.working_run_ids)\n        if backtrack_if_over_max_error:\n            restore_mask &= self.reduction_history['error_base_max'] <= self.max_error / 100\n        restore_run_id = self.reduction_history.loc[restore_mask, 'run_id'].dropna().iloc[-1]\n",
     "        good = [i for i in self.reduction_history.index if self.reduction_history.at[i, 'run_id'] in self.working_run_ids]\n        if backtrack_if_over_max_error:\n            good = [i for i in good if not self.reduction_history.at[i, 'error_base_max'] > self.max_error / 100]\n        restore_run_id = self.reduction_history.at[good[-1], 'run_id']\n"),
    ("            reduced_chemistry = self.model.model.chemistry.copy()\n            reduced_chemistry.disable(species=[species])\n            species_left = set(reduced_chemistry.get_species_name())\n            if not species_left_before_remove - species_left <= self.all_eligible_species:\n",
     "            trial = self.model.model.chemistry.copy()\n            trial.disable(species=[species])\n            gone = species_left_before_remove.difference(trial.get_species_name())\n            if gone - self.all_eligible_species:\n"),
    ("            error_base_max = self.sol_dif_base.get_error_max(sol, self.important_outputs, self.important_times)\n            error_base_rms = self.sol_dif_base.get_error_rms(sol, self.important_outputs, self.important_times)\n            error_last_max = self.sol_dif_last.get_error_max(sol, self.important_outputs, self.important_times)\n            error_last_rms = self.sol_dif_last.get_error_rms(sol, self.important_outputs, self.important_times)\n",
     "            important = (sol, self.important_outputs, self.important_times)\n            error_last_rms, error_last_max = self.sol_dif_last.get_error_rms(*important), self.sol_dif_last.get_error_max(*important)\n            error_base_rms, error_base_max = self.sol_dif_base.get_error_rms(*important), self.sol_dif_base.get_error_max(*important)\n"),
    ("                if not np.isnan(reduction_run_max_error) and reduction_run_max_error > self.max_error / 100:\n                    unsuccess_streak += 1  # the chemistry was reset to the one before this run in remove_one_and_run()\n                elif np.isnan(reduction_run_max_error):\n                    pass  # only if the species could not have been disabled or the model solution faulted, in that\n                    # case do not reset the unsuccess_streak counter!\n                else:\n",
     "                if np.isnan(reduction_run_max_error):\n                    pass\n                elif reduction_run_max_error > self.max_error / 100:\n                    unsuccess_streak = unsuccess_streak + 1\n                else:\n"),
    ("        if not dynamic:\n            ranking_series = ranking.copy()\n        else:\n            ranking_series = ranking(self.model)\n", "        ranking_series = ranking(self.model) if dynamic else ranking.copy()\n"),
    ("        del self.working_run_ids[self.working_run_ids.index(run_id) + 1:]\n", "        while self.working_run_ids[-1] != run_id:\n            self.working_run_ids.pop()\n"),
    ("            elif not log_flag:  # remove the log if logging turned off for this file...\n                os.remove(log_path)\n", "            if not log_flag:\n                os.unlink(log_path)\n"),
]})

RF['xml'] = (['C08', 'C30'], {XM: [
    ("        xmlstr = minidom.parseString(ElementTree.tostring(root_xml, encoding='utf-8')).toprettyxml(indent=4 * ' ')\n        with open(path, 'w') as f:\n            f.write(xmlstr)",
     "        document = minidom.parseString(ElementTree.tostring(root_xml))\n        with open(path, mode='w', encoding='utf-8') as f:\n            f.write(document.toprettyxml(indent='    '))"),
    ("            attributes = {element.tag: element.text for element in list(rp_xml) if element.tag not in skip_tags}\n",
     "            attributes = {}\n            for element in rp_xml:\n                if element.tag in skip_tags:\n                    continue\n                attributes[element.tag] = element.text\n"),
    ("            units = {element.tag: element.attrib['unit'] for element in list(reaction_xml) if 'unit' in element.attrib}\n",
     "            units = dict((element.tag, element.get('unit')) for element in reaction_xml if element.get('unit') is not None)\n"),
    ("            reactants = [species_dict[sp_name] for sp_name in reactants_names]\n            products = [species_dict[sp_name] for sp_name in products_names]\n",
     "            reactants, products = ([species_dict[n] for n in names] for names in (reactants_names, products_names))\n"),
    ("        for rp_name in set(reactants_names + products_names):\n            if rp_name not in self.species_dict:\n                raise XmlError('Some of the reactants or products are not present in species!')\n",
     "        missing = [n for n in list(reactants_names) + list(products_names) if n not in self.species_dict]\n        if missing:\n            raise XmlError('Some of the reactants or products are not present in species!')\n"),
    ("        special_ids = {'e': 0, 'M': 999}\n        next_id = 1\n        for rp_xml in self.species:\n            rp_name = rp_xml.find('name').text\n            if rp_name in special_ids:\n                new_id = special_ids[rp_name]\n            else:\n                new_id = next_id\n                next_id += 1\n            rp_xml.attrib['id'] = str(new_id)\n",
     "        special_ids = {'e': 0, 'M': 999}\n        ordinary = [rp_xml for rp_xml in self.species if rp_xml.findtext('name') not in special_ids]\n        for k, rp_xml in enumerate(ordinary, start=1):\n            rp_xml.set('id', str(k))\n        for rp_xml in self.species:\n            if rp_xml.findtext('name') in special_ids:\n                rp_xml.set('id', str(special_ids[rp_xml.findtext('name')]))\n"),
    ("        for i, r_xml in enumerate(self.reactions):\n            r_id = i + 1  # starting with 1\n            r_xml.attrib['id'] = str(r_id)\n",
     "        for r_id, r_xml in enumerate(self.reactions, start=1):\n            r_xml.set('id', '{}'.format(r_id))\n"),
    ("        sorted_reactions = []\n        for r_type in classified_reactions:\n            for r_category in classified_reactions[r_type]:\n                sorted_reactions.extend(classified_reactions[r_type][r_category])\n        sorted_reactions_ids = [str(r.id) for r in sorted_reactions]\n",
     "        sorted_reactions_ids = [\n            str(r.id) for categories in classified_reactions.values() for rs in categories.values() for r in rs]\n"),
    ("        state_strs = [state.state_str for state in qdb_rp.state.all()]\n        states_str = ','.join(state_strs)\n        # I want parenthesis around the states only if they are not */**/***...\n        if states_str.strip('*'):\n            states_str = '({})'.format(states_str)\n        return states_str\n",
     "        joined = ','.join(state.state_str for state in qdb_rp.state.all())\n        only_stars = set(joined) <= {'*'}\n        return joined if only_stars else '(' + joined + ')'\n"),
    ("        for charge in ['+', '-']:  # multiple charges:\n            for ionisation_degree in [2, 3]:\n                qdb_charge_suffix = charge + str(ionisation_degree)\n                if stateless_str.endswith(qdb_charge_suffix):\n                    # replace 'Ar+2' with Ar++\n                    stateless_str = stateless_str[:-len(qdb_charge_suffix)] + charge * ionisation_degree\n",
     "        match = re.match(r'^(.*)([+-])([23])$', stateless_str)\n        if match:\n            stateless_str = match.group(1) + match.group(2) * int(match.group(3))\n"),
    ("            if 'e' in reactants_names:\n                qdb_xsec_datasets = qdb_datasets.filter(dataset_type__pk=2)\n                if qdb_xsec_datasets.count() != 0:\n                    qdb_ds = qdb_xsec_datasets[0]\n                else:\n                    qdb_ds = qdb_datasets[0]\n            else:\n                qdb_nonxsec_datasets = qdb_datasets.filter(dataset_type__pk__in={1, 3})\n                if qdb_nonxsec_datasets.count() != 0:\n                    qdb_ds = qdb_nonxsec_datasets[0]\n                else:\n                    qdb_ds = qdb_datasets[0]\n",
     "            preferred = {2} if 'e' in reactants_names else {1, 3}\n            favourites = qdb_datasets.filter(dataset_type__pk__in=preferred)\n            qdb_ds = (favourites if len(favourites) else qdb_datasets)[0]\n"),
    ("                if qdb_ds.threshold is not None:\n                    el_en_loss = float(qdb_ds.threshold)  # if it's explicitly saved\n                else:\n                    el_en_loss = qdb_ds.get_thresh()  # if not, read from xsec values via dedicated method in qdb model\n",
     "                el_en_loss = qdb_ds.get_thresh() if qdb_ds.threshold is None else float(qdb_ds.threshold)\n"),
    ("        for source in qdb_ds.citations.all():\n            if source.doi not in {None, 'None'}:\n                r_attributes['doi'] = str(source.doi)\n                break\n",
     "        dois = [str(source.doi) for source in qdb_ds.citations.all() if source.doi not in (None, 'None')]\n        if dois:\n            r_attributes['doi'] = dois[0]\n"),
    ("            if sp_dict['stick_coef']:\n", "            if sp_dict['stick_coef'] != 0:\n"),
    ("            r_dict['reactants'] = [rename(sp) for sp in r_dict['reactants'].split(' + ')]\n            r_dict['products'] = [rename(sp) for sp in r_dict['products'].split(' + ')]\n",
     "            for side in ('reactants', 'products'):\n                r_dict[side] = list(map(rename, r_dict[side].split(' + ')))\n"),
]})
RF['latex'] = (['C29'], {LT: [
    ("        a, exp = a_exp.split('E')\n", "        where = a_exp.index('E')\n        a, exp = a_exp[:where], a_exp[where + 1:]\n"),
    ("        return number.rstrip('0').rstrip('.') if '.' in number else number\n", "        if '.' not in number:\n            return number\n        while number.endswith('0'):\n            number = number[:-1]\n        return number[:-1] if number.endswith('.') else number\n"),
    ("            sign = '-' if reaction.get_arrh_c() > 0 else ''\n", "            sign = ''\n            if reaction.get_arrh_c() > 0:\n                sign = '-'\n"),
    ("            act_en = Texify._strip_zeros(str(round(abs(reaction.get_arrh_c()), 2)))\n", "            energy = reaction.get_arrh_c()\n            act_en = Texify._strip_zeros(str(round(energy if energy > 0 else -energy, 2)))\n"),
    ("        lbs = [i for i, ltr in enumerate(rp_name) if ltr == '(']\n        rbs = [i for i, ltr in enumerate(rp_name) if ltr == ')']\n", "        lbs, rbs = ([i for i in range(len(rp_name)) if rp_name[i] == b] for b in '()')\n"),
    ("        for superscript, note in self.notes.items():\n            lines.append(", "        for superscript in self.notes:\n            note = self.notes[superscript]\n            lines.append("),
]})
RF['species'] = (['C01', 'C05', 'C09', 'C29', 'C30'], {SPC: [
    ("        return str(re.sub(charge_pattern, '', stateless_name))", "        match = re.search(charge_pattern, stateless_name)\n        return str(stateless_name)[:match.start()] if match else str(stateless_name)"),
    ("        if self.get_name() == 'e':\n            return {}\n        if self.get_name() == 'M':\n            return {'M': 1}\n", "        special = {'e': {}, 'M': {'M': 1}}\n        if self.get_name() in special:\n            return dict(special[self.get_name()])\n"),
    ("            return {key: float(ret_coefs[key]) for key in ret_coefs}\n", "            return dict(zip(ret_coefs, map(float, ret_coefs.values())))\n"),
]})


def rewrite(s, name, new):
    """the function (or Class.method) with a new text"""
    cls, _, fn = name.rpartition('.')
    found = [(c, n) for c in ast.walk(ast.parse(s)) if isinstance(c, (ast.ClassDef, ast.Module)) for n in c.body
             if isinstance(n, ast.FunctionDef) and n.name == fn and (not cls or getattr(c, 'name', '') == cls)]
    assert len(found) == 1, (name, len(found))
    n = found[0][1]
    lines = s.split('\n')
    first = min([n.lineno] + [d.lineno for d in n.decorator_list])
    text = textwrap.indent(textwrap.dedent(new).strip('\n'), ' ' * n.col_offset)
    return '\n'.join(lines[:first - 1] + [text] + lines[n.end_lineno:])


def run(name, checks=None):
    which, files = RF[name]
    w = '/tmp/refactored'
    shutil.rmtree(w, ignore_errors=True)
    shutil.copytree('/repo', w, symlinks=True)
    for f, edits in files.items():
        p = os.path.join(w, f)
        s = open(p).read()
        for old, new in edits:
            if old.startswith('def '):
                s = rewrite(s, old[4:], new)
                continue
            if s.count(old) != 1:
                print(name, 'does not match once:', s.count(old), old[:70])
                continue
            s = s.replace(old, new)
        open(p, 'w').write(s)
    for c in checks or which:
        t = time.time()
        r = subprocess.run(['./check.sh', c, 'quick'], cwd=os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'),
                           env=dict(os.environ, SYMX_REPO=w), capture_output=True, text=True)
        out = r.stdout.splitlines()
        bad = [l for l in out if 'VIOLATION' in l or 'incomplete' in l] + r.stderr.splitlines()[-1:]
        print('{} {} {} rc={} {:.0f}s {}'.format('quiet' if r.returncode == 0 else 'ALARM', name, c, r.returncode, time.time() - t, ' | '.join(b[:160] for b in bad[:3])), flush=True)
    shutil.rmtree(w, ignore_errors=True)


if __name__ == '__main__':
    for n in sys.argv[1:] or RF:
        n, _, cs = n.partition(':')
        run(n, cs.split(',') if cs else None)
