"""Reference meaning of a rewritten INSERT (C07) and UPDATE (C08), written from the property text."""
from ghost import cipher, column, encoded


def physical_columns(columns, meta):
    out = []
    for c in columns:
        info = column(meta, c)
        if info['plaintext']:
            out.append(c)
        else:
            for kind, name in info['enc-cols'].items():
                out.append(name)
    return out


def ciphertext(kind, info, given):
    """the ciphertext of a given value: NULL stays NULL, everything else is encoded for its type and encrypted under the column's key"""
    if isinstance(given, dict) and 'null' in given:
        return given
    plain = given['literal'] if isinstance(given, dict) else given
    return cipher(kind, info, encoded(plain, info['type']))


def values(columns, given, meta):
    out = []
    for c, v in zip(columns, given):
        info = column(meta, c)
        if info['plaintext']:
            out.append(v)
        else:
            for kind in info['enc-cols']:
                out.append({'value': ciphertext(kind, info, v['value'])})
    return out


def assignments(given, meta):
    out = {}
    for c, v in given.items():
        info = column(meta, c)
        if info['plaintext']:
            out[c] = v
        else:
            for kind, name in info['enc-cols'].items():
                out[name] = ciphertext(kind, info, v)
    return out


def row(given, meta):
    return assignments(given, meta)


def rows(given, meta):
    return [assignments(r, meta) for r in given]
