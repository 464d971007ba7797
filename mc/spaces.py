"""Bounded spaces of tables of lines."""
import itertools


def batches(seq, n):
    seq = list(seq)
    return [seq[i:i + n] for i in range(0, len(seq), n)]


def multisets(alphabet, sizes):
    out = []
    for k in sizes:
        out += list(itertools.combinations_with_replacement(alphabet, k))
    return out


def pair_tables(pairs, line_sizes, single, double, triple):
    """Tables whose lines are multisets of matched pairs.

    single/double/triple: number of (simplest first) line shapes used in tables of 1, 2 and 3 lines.
    """
    lines = multisets(pairs, line_sizes)
    tables = [(l,) for l in lines[:single]]
    tables += list(itertools.combinations_with_replacement(lines[:double], 2))
    tables += list(itertools.combinations_with_replacement(lines[:triple], 3))
    return tables


def long_tables(lines, lengths, strides=(1, 2, 3)):
    n = len(lines)
    return [tuple(lines[(i * k + i // n) % n] for i in range(m)) for m in lengths for k in strides]
