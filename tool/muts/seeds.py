import runpy,sys
MUTS=[(s['id'],[s['property']],1,s['edits']) for f in sorted(__import__('glob').glob('/verif/tool/seeds/*.py')) for s in runpy.run_path(f)['SEEDS']]
