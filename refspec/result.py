"""Reference meaning of decrypting a result set (C11)."""
from ghost import is_decimal, is_time, equal_number, time_text, cell_plaintext, key_plaintext, decoded


def cell(x, name, state):
    if state == 'plaintext':
        if is_decimal(x):
            return equal_number(x)
        if is_time(x):
            return time_text(x)
        return x
    return cell_plaintext(x, name, state)


def tuples(result, names, states):
    out = []
    for row in result:
        r = []
        for name, state, x in zip(names, states, row):
            r.append(cell(x, name, state))
        out.append(tuple(r))
    return out


def lists(result, names, states):
    out = []
    for row in result:
        r = []
        for name, state, x in zip(names, states, row):
            r.append(cell(x, name, state))
        out.append(r)
    return out


def decrypted(x, info, kind):
    """a cell decrypted with its cipher under the key of its own column, decoded by its type; NULL stays NULL"""
    if x is None:
        return None
    return decoded(key_plaintext(kind, info, x), info['type'])
