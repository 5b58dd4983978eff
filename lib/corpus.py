"""Hand-picked grammars kept as text in /verif/corpus."""
import glob, os
import gram
DIR = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "corpus")

def grammars(exclude=()):
    out = []
    for f in sorted(glob.glob(DIR + "/*.g")):
        n = os.path.basename(f)[:-2]
        if n not in exclude: out.append((n, gram.parse_text(open(f).read(), n)))
    return out
