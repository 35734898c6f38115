"""Reference meaning of CREATE TABLE (C12): the metadata recorded for one column, and the DDL of one physical column."""
from ghost import width_type, width, default_phrase, quoted, key_phrase

OWN = {'int': ['order-preserving', 'symmetric'], 'float': ['order-preserving', 'symmetric'], 'double': ['order-preserving', 'symmetric'],
       'char': ['symmetric'], 'varchar': ['symmetric']}


class Refused(Exception):
    pass


def ciphers(tname, conf):
    """the ciphers a column of that type is configured with"""
    if tname not in OWN:
        raise Refused
    out = list(OWN[tname])
    if conf['fuzzy']:
        out.append('fuzzy')
    if conf.get('arithmetic'):
        out.append('arithmetic')
    if conf.get('sm4'):
        out.append('sm4')
    return out


def physical_type(tname, size, cipher):
    if cipher == 'fuzzy' or cipher == 'sm4':
        return 'VARCHAR(2000)'
    if cipher == 'arithmetic':
        return 'Decimal(65,0)'
    if tname == 'int':
        return 'BIGINT' if cipher == 'order-preserving' else 'VARCHAR(300)'
    if tname == 'float' or tname == 'double':
        return 'DECIMAL(65)' if cipher == 'order-preserving' else 'VARCHAR(1000)'
    if not size:
        raise Refused
    return width_type(tname, size) + '(' + str(width(tname, size)) + ')'


def declared(tname, size):
    if isinstance(size, list):
        return tname + '(' + ','.join(str(x) for x in size) + ')'
    if size:
        return tname + '(' + str(size) + ')'
    return tname


def nullable(col):
    if 'nullable' in col:
        return ' NULL ' if col['nullable'] else ' NOT NULL '
    return ''


def primary(col):
    auto = ' auto_increment ' if col.get('auto_increment') else ''
    return ' primary key' + auto if col.get('primary_key') else ''


def plain_column(col, tname, size):
    return quoted(col['name']) + ' ' + declared(tname, size) + nullable(col) + primary(col) + default_phrase(col, None, None)


def cipher_column(col, tname, size, cipher, name, conf):
    key = primary(col) if cipher == 'symmetric' else ''
    return name + ' ' + physical_type(tname, size, cipher) + nullable(col) + key + default_phrase(col, conf, cipher)


def recorded_plain(col, tname):
    info = {'enc-cols': {}, 'plaintext': True, 'type': tname, 'key': ''}
    if col.get('comment'):
        info['comment'] = col['comment']['literal']
    return info


def recorded_cipher(col, tname, conf, names):
    info = {'enc-cols': names, 'plaintext': False, 'type': tname, 'key': conf['key']}
    if col.get('comment'):
        info['comment'] = col['comment']['literal']
    if conf.get('arithmetic'):
        info['homomorphic_key'] = conf.get('homomorphic_key', '')
    if conf.get('sm4'):
        info['sm4_key'] = conf.get('sm4_key', '')
    return info


def default(col, conf, cipher, printed, encrypted):
    """the DEFAULT phrase: an encrypted column gets the ciphertext an INSERT of the default value would store"""
    if 'default' not in col:
        return ''
    value = col['default']
    if isinstance(value, str):
        if conf is not None:
            raise Refused
        return ' DEFAULT ' + value
    if conf is not None:
        value = encrypted(cipher, conf, value)
    return ' DEFAULT ' + printed(value)


def statement(name, pieces, keys):
    return 'CREATE TABLE IF NOT EXISTS ' + name + '(' + ','.join(pieces) + (',' + ','.join(keys) if keys else '') + ')'


def keys_of(ks):
    return [key_phrase(k) for k in ks]


def recorded(table, name, columns, comment):
    return {table: {'anonymous': name, 'columns': columns, 'comment': comment}}


def physical(cols, name):
    """the physical column that stands for a column in a key"""
    info = cols[name]
    return quoted(name) if info['plaintext'] else info['enc-cols']['symmetric']


def key_of(constraint, cols, meta):
    """PRIMARY KEY / FOREIGN KEY ... REFERENCES over the physical columns"""
    head = 'CONSTRAINT ' + quoted(constraint['name']) + ' ' if constraint.get('name') else ''
    if 'foreign_key' in constraint:
        k = constraint['foreign_key']
        r = k['references']
        t = meta[r['table']]
        return (head + 'FOREIGN KEY(' + listed(cols, k['columns']) + ') REFERENCES ' + t['anonymous'] + '(' + listed(t['columns'], r['columns']) + ')')
    return head + 'PRIMARY KEY(' + listed(cols, constraint['primary_key']['columns']) + ')'


def listed(cols, names):
    return ','.join([physical(cols, n) for n in (names if isinstance(names, list) else [names])])
