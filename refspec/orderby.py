"""Reference meaning of a rewritten single-key ORDER BY (C21)."""


def orderby(given, meta):
    out = {}
    for k, v in given.items():
        if k == 'value':
            info = meta[v]
            out[k] = v if info['plaintext'] else info['enc-cols']['order-preserving']
        else:
            out[k] = v
    return out
