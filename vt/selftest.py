"""Setup: the tools are there and the reference model agrees with well-known facts (does not touch the code under test)."""
from . import gens, graphs, iso, ref


def main():
    import hypothesis
    import numpy
    cat = gens.ALL_GRAPHS   # validates every graph against its parameters
    for name, M in cat.items():
        C = ref.canonical(M)
        assert ref.is_canonical(C) is None and ref.canonical(C) == C, name
    # numbers of isomorphism classes from the literature
    for p, n in {(9, 4, 1, 2): 1, (10, 3, 0, 1): 1, (10, 6, 3, 4): 1, (13, 6, 2, 3): 1, (15, 6, 1, 3): 1, (16, 5, 0, 2): 1,
                 (16, 6, 2, 2): 2, (16, 9, 4, 6): 2, (17, 8, 3, 4): 1, (21, 10, 5, 4): 1, (14, 6, 1, 3): 0}.items():
        classes = []
        for M in ref.completions(ref.seed(*p), p):
            assert ref.is_srg(M, p) is None and ref.is_canonical(M) is None
            if not any(iso.isomorphic(M, c) for c in classes):
                classes.append(M)
        assert len(classes) == n, (p, len(classes))
    assert not iso.isomorphic(cat['shrikhande'], cat['L2(4)']) and not iso.isomorphic(cat['chang0'], cat['T8'])
    print(f'selftest ok: hypothesis {hypothesis.__version__}, numpy {numpy.__version__}, {len(cat)} graphs')
    return 0
