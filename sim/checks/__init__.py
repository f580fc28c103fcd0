from importlib import import_module

WHERE = {'C01': 'threads', 'C02': 'threads', 'C03': 'state', 'C04': 'state', 'C05': 'memory', 'C06': 'memory', 'C07': 'values',
         'C08': 'solving', 'C09': 'solving', 'C10': 'solving', 'C11': 'sinks', 'C12': 'sinks', 'C13': 'state', 'C14': 'stack',
         'C15': 'callbacks', 'C16': 'state', 'C17': 'state', 'C18': 'damage', 'C19': 'scripts', 'C20': 'derivator', 'C21': 'lifecycle', 'C22': 'values'}


def get(pid):
    m = import_module('sim.checks.' + WHERE[pid])
    return getattr(m, pid)()
