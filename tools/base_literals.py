"""Writes replay/base-literals.json from an extracted AST (run once, on the pinned tree)."""
import json, sys
src = open('/verif/bin/check').read().split("if __name__")[0].replace('os.path.abspath(__file__)', "'/verif/bin/check'")
exec(compile(src, 'check', 'exec'))
l = literals(json.load(open(sys.argv[1])), '/repo')
json.dump({'strings': l['strings'], 'numbers': l['numbers'], 'names': l['names'], 'regexes': l['regexes']}, open('/verif/replay/base-literals.json', 'w'), indent=0)
