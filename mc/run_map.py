MODULES = {'P': 'parser', 'T': 'tree', 'X': 'xmlp', 'I': 'streams', 'W': 'writers', 'U': 'util', 'Q': 'xpath',
           'H': 'html', 'B': 'ext', 'M': 'cli'}


def module(pid):
    return {'Q11': 'threads', 'P06': 'scanner'}.get(pid, MODULES[pid[0]])
