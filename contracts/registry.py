"""property -> contract modules"""
MODULES = {'C29': ['data', 'readers'], 'C25': ['data', 'sim'], 'C24': ['data', 'sim'], 'C23': ['data'], 'C19': ['data', 'pcread'], 'C18': ['data'], 'C17': ['data', 'readers'], 'C16': ['data', 'readers'], 'C15': ['data', 'readers'], 'C01': ['data', 'readers'], 'C02': ['c02', 'post'], 'C03': ['mos', 'post'], 'C04': ['mos', 'post'], 'C05': ['mos', 'post'], 'C06': ['mos', 'post'], 'C07': ['mos', 'post'], 'C08': ['mos', 'post'], 'C09': ['p910'], 'C10': ['p910'], 'C11': ['mle'], 'C12': ['mle'], 'C13': ['post'], 'C14': ['post'], 'C20': ['pc'], 'C21': ['pc'], 'C22': ['perf'], 'C26': ['stats'], 'C27': ['demos'], 'C28': ['legacy'], 'C30': ['opts'], 'C31': ['report']}
LEVELS = {'C18': 'exploration', 'C23': 'exploration'}
NOTES = {'C31': 'proved: run_subjective_models (without plots) over contracts of reader and models, get_ci_percentage; the report and the command line are decided by bounded stand-ins', 'C17': 'the merge of a dataset with overlapping reference copies is decided by a bounded stand-in'}
TECHS = {k: 'bounded contract checking of the real code on generated datasets (stand-in, not counted as proved)' for k in ('C18', 'C23')}
NA = {}
def load(prop):
    import importlib
    out = []
    for m in MODULES[prop]: out += importlib.import_module('contracts.' + m).CONTRACTS.get(prop, [])
    return out
