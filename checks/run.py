import importlib, sys
import vp

GROUPS = {
    'C01': 'bayesnet', 'C02': 'bayesnet', 'C03': 'bayesnet', 'C04': 'bayesnet',
    'C05': 'dag',
    'C08': 'sampling', 'C09': 'sampling', 'C10': 'sampling', 'C11': 'sampling',
    'C12': 'alloc', 'C13': 'simcore', 'C14': 'simcore', 'C15': 'simcore', 'C16': 'simcore',
    'C22': 'numeric', 'C25': 'numeric', 'C26': 'numeric', 'C28': 'numeric',
    'C21': 'hme', 'C19': 'fit', 'C20': 'fit', 'C24': 'ga',
    'C17': 'monitor', 'C18': 'datamodel', 'C23': 'datamodel',
    'C29': 'data', 'C30': 'data',
    'C31': 'fitter',
    'C06': 'factory', 'C07': 'factory', 'C27': 'factory',
}

if __name__ == '__main__':
    prop = sys.argv[1]
    mod = importlib.import_module('chk_' + GROUPS[prop])
    sys.exit(vp.main(prop, lambda c: mod.run(c, prop)))
