"""Truncation dictionaries built from the documented key names (independent of the repository's own helper)."""
NAME = {'H': 'maximum_hamiltonian_rank', 'CC': 'maximum_coupled_cluster_rank', 'S': 's_taylor_max_order',
        'P': 'omega_max_order', 'T': 'maximum_T_rank', 'eT': 'eT_taylor_max_order'}
KEYS = {3: ('H', 'CC', 'P'), 4: ('H', 'CC', 'S', 'P'), 5: ('H', 'CC', 'T', 'eT', 'P')}


def make_trunc(values):
    from truncation_keys import TruncationsKeys as tkeys
    return {tkeys(NAME[k]): v for k, v in zip(KEYS[len(values)], values)}
