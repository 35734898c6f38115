R=[]
def r(id, props, *edits): R.append((id, props.split(), edits))
H='scheduler/handers/'
r('where-helper','C09 C05',(H+'clause/sql_where.py',"""                    if self.is_encrypted(v[0], col):
                        return {
                            'like': [col[v[0]]['enc-cols']["fuzzy"],
                                     self.encrypt_literal(v[1], col[v[0]], 'fuzzy')]
                        }
""","""                    if self.is_encrypted(v[0], col):
                        return self.compare('like', v, col, 'fuzzy')
"""),(H+'clause/sql_where.py',"""    @staticmethod
    def is_encrypted(operand, col):""","""    def compare(self, op, operands, col, cipher):
        name, value = operands
        column = col[name]
        return {op: [column['enc-cols'][cipher], self.encrypt_literal(value, column, cipher)]}

    @staticmethod
    def is_encrypted(operand, col):"""))
r('where-loop','C09',(H+'clause/sql_where.py',"""                    return {k: [self.rewrite(a_v, table, cipher=cipher) for a_v in v]}""","""                    parts = []
                    for part in v:
                        parts.append(self.rewrite(part, table, cipher=cipher))
                    return {k: parts}"""))
r('where-mentions','C09',(H+'clause/sql_where.py',"""            return any(k != 'literal' and self.mentions_encrypted(v, col) for k, v in value.items())""","""            for k, v in value.items():
                if k == 'literal':
                    continue
                if self.mentions_encrypted(v, col):
                    return True
            return False"""))
r('where-pattern','C05 C09',(H+'clause/sql_where.py',"""        result = []
        for partial in pattern.split("%"):
            if partial == "":
                result.append("")
                continue
            if len(partial) < 3:
                raise Exception("The length of fuzzy search word {} is {} <3".format(partial, len(partial)))
            result.append(encrypt.FuzzyCipher(key).encrypt(partial))
        return "%".join(result)""","""        cipher = encrypt.FuzzyCipher(key)

        def piece(partial):
            if not partial:
                return partial
            if len(partial) < 3:
                raise Exception("The length of fuzzy search word {} is {} <3".format(partial, len(partial)))
            return cipher.encrypt(partial)

        return "%".join(piece(p) for p in pattern.split("%"))"""))
r('values-table','C07 C08',(H+'clause/sql_values.py',"""        for col, value in zip(json['columns'], values):
            if enc_table_meta['columns'][col]['plaintext']:
                new_values.append(value)
            else:
                for enc in enc_table_meta['columns'][col]['enc-cols'].keys():
                    new_values.append(self.encrypt_value(table, col, value['value'], enc))
        return new_values
""","""        columns = enc_table_meta['columns']
        for col, value in zip(json['columns'], values):
            info = columns[col]
            if info['plaintext']:
                new_values.append(value)
                continue
            new_values += [self.encrypt_value(table, col, value['value'], enc) for enc in info['enc-cols']]
        return new_values
"""))
r('values-dispatch','C07 C08 C12',(H+'clause/sql_values.py',"""        key = self.db_meta[table]['columns'][col]['key']
        if isinstance(value, dict):
            if 'null' in value:
                return {'value': value}
            value = value['literal']
        value = encrypt.encode(value, self.db_meta[table]['columns'][col]['type'])
        if enc == "order-preserving":
            return {'value': encrypt.OPECipher(key).encrypt(int(value))}
        if enc == "symmetric":
            return {'value': {'literal': encrypt.AESCipher(key).encrypt(str(value))}}
        if enc == "fuzzy":
            return {'value': {'literal': encrypt.FuzzyCipher(key).encrypt(str(value))}}
        if enc == "arithmetic":
            homomorphic_key = self.db_meta[table]['columns'][col]['homomorphic_key']
            return {'value': {'literal': encrypt.HomomorphicCipher(homomorphic_key).encrypt(int(value))}}
        if enc == "sm4":
            sm4_key = self.db_meta[table]['columns'][col]['sm4_key']
            return {'value': {'literal': encrypt.SM4CipherBytes(sm4_key).encrypt(str(value))}}
        raise Exception("no cipher {} for column {}".format(enc, col))
""","""        info = self.db_meta[table]['columns'][col]
        if isinstance(value, dict):
            if 'null' in value:
                return {'value': value}
            value = value['literal']
        value = encrypt.encode(value, info['type'])
        if enc == "order-preserving":
            return {'value': encrypt.OPECipher(info['key']).encrypt(int(value))}
        return {'value': {'literal': self.text_cipher(info, col, value, enc)}}

    @staticmethod
    def text_cipher(info, col, value, enc):
        if enc == "symmetric":
            return encrypt.AESCipher(info['key']).encrypt(str(value))
        elif enc == "fuzzy":
            return encrypt.FuzzyCipher(info['key']).encrypt(str(value))
        elif enc == "arithmetic":
            return encrypt.HomomorphicCipher(info['homomorphic_key']).encrypt(int(value))
        elif enc == "sm4":
            return encrypt.SM4CipherBytes(info['sm4_key']).encrypt(str(value))
        raise Exception("no cipher {} for column {}".format(enc, col))
"""))
r('rows-comp','C07',(H+'clause/sql_values.py',"""                    for enc, enc_col in columns[col]['enc-cols'].items():
                        new_row[enc_col] = self.encrypt_value(table, col, value, enc)['value']
            new_values.append(new_row)
""","""                    new_row.update({enc_col: self.encrypt_value(table, col, value, enc)['value'] for enc, enc_col in columns[col]['enc-cols'].items()})
            new_values.append(new_row)
"""))
r('set-order','C08',(H+'clause/sql_set.py',"""            if enc_table_meta['columns'][k]['plaintext']:
                result[k] = v
            else:
                if isinstance(v, str):
                    raise Exception("encrypted column {} is not assigned from another column".format(k))
                for k1, v1 in enc_table_meta['columns'][k]['enc-cols'].items():
                    result[v1] = self.values.encrypt_value(table, k, v, k1)['value']
""","""            column = enc_table_meta['columns'][k]
            if not column['plaintext']:
                if isinstance(v, str):
                    raise Exception("encrypted column {} is not assigned from another column".format(k))
                for cipher in column['enc-cols']:
                    physical = column['enc-cols'][cipher]
                    encrypted = self.values.encrypt_value(table, k, v, cipher)
                    result[physical] = encrypted['value']
                continue
            result[k] = v
"""))
r('columns-comp','C07',(H+'clause/sql_columns.py',"""        for col in columns:
            if enc_table_meta['columns'][col]['plaintext']:
                new_columns.append(col)
            else:
                new_columns.extend(
                    list(enc_table_meta['columns'][col]['enc-cols'].values()))
        return new_columns""","""        for col in columns:
            info = enc_table_meta['columns'][col]
            names = [col] if info['plaintext'] else info['enc-cols'].values()
            for name in names:
                new_columns.append(name)
        return new_columns"""))
r('select-record','C10 C11',(H+'clause/sql_select.py',"""                    if v['plaintext']:
                        result.append(associate_t_name + k)
                        self.select_state.append("plaintext")
                    else:
                        result.append(associate_t_name + v['enc-cols'][cipher])
                        self.select_state.append(cipher)
                    select_column_name = single_table + '.' if len(cache_table) > 1 else ''
                    self.select_columns.append(select_column_name + k)
                    self.select_types.append(v['type'])
""","""                    physical, state = (k, "plaintext") if v['plaintext'] else (v['enc-cols'][cipher], cipher)
                    result.append(associate_t_name + physical)
                    select_column_name = single_table + '.' if len(cache_table) > 1 else ''
                    self.record(select_column_name + k, v['type'], state)
"""),(H+'clause/sql_select.py',"""    def rewrite(self, select_val, table, cipher='symmetric', json=None):
        # if""","""    def record(self, name, type_name, state):
        self.select_columns.append(name)
        self.select_types.append(type_name)
        self.select_state.append(state)

    def rewrite(self, select_val, table, cipher='symmetric', json=None):
        # if"""))
r('select-list-loop','C10',(H+'clause/sql_select.py',"""            return [self.rewrite(v['value'], table) for v in select_val]""","""            items = []
            for item in select_val:
                items.append(self.rewrite(item['value'], table))
            return items"""))
r('select-merge-branches','C10',(H+'clause/sql_select.py',"""                if isinstance(table, str):  # which means table is true table name or some nest table without join
                    t_name, select_val = select_val.split('.') if '.' in select_val else ('',  select_val)
                    col = self.db_meta[table]['columns'][select_val]
                    t_name = t_name + '.' if t_name else ''
                    self.select_types.append(col['type'])
                    if col['plaintext']:
                        self.select_state.append("plaintext")
                        return t_name + select_val
                    else:
                        self.select_state.append(cipher)
                        return t_name + col['enc-cols'][cipher]
                else:
                    if isinstance(table, dict):
                        # 可能是select 嵌套, 从table中获取真正的table_name,
                        # todo: 如何确定table name和被选中的column之间的关系
                        table = get_nest_table(table)
                    t_name,""","""                if True:
                    if isinstance(table, dict):
                        # 可能是select 嵌套, 从table中获取真正的table_name,
                        # todo: 如何确定table name和被选中的column之间的关系
                        table = get_nest_table(table)
                    t_name,"""))
r('orderby-copy','C21 C10',(H+'clause/function.py',"""        if col['plaintext']:
            return orderby_val
        else:
            return {**orderby_val, 'value': col['enc-cols']['order-preserving']}""","""        result = dict(orderby_val)
        if not col['plaintext']:
            result['value'] = col['enc-cols']['order-preserving']
        return result"""))
r('decrypt-share','C11',(H+'decrypt_handler.py',"""        for row in enc_result:
            new_row = []
            for col_name, state, col_val in zip(select_columns, result_state, row):
                if state == "plaintext":
                    if isinstance(col_val, Decimal):
                        col_val = eval(col_val.__str__())

                    if isinstance(col_val, datetime.datetime):
                        new_row.append(col_val.strftime("%Y-%m-%d %H:%M:%S"))
                    else:
                        new_row.append(col_val)
                else:
                    new_row.append(self.__decrypt__(table, col_val, col_name, state))
            self.result.append(tuple(new_row))
        return self.result

    def decrypt1""","""        for row in enc_result:
            self.result.append(tuple(self.decrypt_row(table, row, select_columns, result_state)))
        return self.result

    def decrypt_row(self, table, row, select_columns, states):
        return [self.clear(col_val) if state == "plaintext" else self.__decrypt__(table, col_val, col_name, state)
                for col_name, state, col_val in zip(select_columns, states, row)]

    @staticmethod
    def clear(col_val):
        if isinstance(col_val, Decimal):
            return eval(str(col_val))
        if isinstance(col_val, datetime.datetime):
            return col_val.strftime("%Y-%m-%d %H:%M:%S")
        return col_val

    def decrypt1"""))
r('decrypt-lazy','C11 C06',(H+'decrypt_handler.py',"""        key = self.db_meta[table]['columns'][col_name]['key']  # AES 密钥
        homo_key = self.db_meta[table]['columns'][col_name].get('homomorphic_key')  # 同态加密密钥
        decrypter = {"symmetric": encrypt.AESCipher(key),
                     "order-preserving": encrypt.OPECipher(key),
                     "arithmetic": encrypt.HomomorphicCipher(homo_key)}
        return encrypt.decode(decrypter[state].decrypt(col_val), self.db_meta[table]['columns'][col_name]['type'])""","""        column = self.db_meta[table]['columns'][col_name]
        if state == "arithmetic":
            decrypter = encrypt.HomomorphicCipher(column.get('homomorphic_key'))
        elif state == "order-preserving":
            decrypter = encrypt.OPECipher(column['key'])
        elif state == "symmetric":
            decrypter = encrypt.AESCipher(column['key'])
        else:
            raise KeyError(state)
        clear = decrypter.decrypt(col_val)
        return encrypt.decode(clear, column['type'])"""))
r('rewriter-find','C07 C08 C09 C10 C14',(H+'rewrite_hander.py',"""        for key in table_key:
            if key in json.keys():
                table = copy.deepcopy(json[key])
                break
        else:
            raise Exception("no table found in sql {}".format(self.origin_query))

        def __inner__""","""        table = self.find_table(json)

        def __inner__"""),(H+'rewrite_hander.py',"""    def rewrite_clause(self, json):""","""    def find_table(self, json):
        present = [key for key in table_key if key in json]
        if not present:
            raise Exception("no table found in sql {}".format(self.origin_query))
        return copy.deepcopy(json[present[0]])

    def rewrite_clause(self, json):"""))
r('table-loop','C12',(H+'table.py',"""            for t_k, t_v in col_type.items():
                if t_v:
                    sizes = t_v if isinstance(t_v, list) else [t_v]
                    enc_col_type = t_k + '(' + ','.join(str(size) for size in sizes) + ')'
                else:
                    enc_col_type = t_k
                default_value = get_default(col)
                enc_columns.append(quote(col_name) + ' ' + enc_col_type + is_nullable + primary_key + default_value)
                columns_kv[col_name]['plaintext'] = True
                columns_kv[col_name]['type'] = t_k
                columns_kv[col_name]['key'] = ""
            continue""","""            for t_k, t_v in col_type.items():
                default_value = get_default(col)
                enc_columns.append(quote(col_name) + ' ' + plain_type(t_k, t_v) + is_nullable + primary_key + default_value)
                columns_kv[col_name].update({'plaintext': True, 'type': t_k, 'key': ""})
            continue"""),(H+'table.py',"""def quote(name):""","""def plain_type(name, size):
    if not size:
        return name
    sizes = size if isinstance(size, list) else [size]
    return '{}({})'.format(name, ','.join([str(s) for s in sizes]))


def quote(name):"""))
r('table-name','C12',(H+'table.py',"""            enc_col_name = random.choice(string.ascii_letters) + \\
                           hashlib.md5(str(time.perf_counter()).encode('utf-8')).hexdigest()
            for t_k""","""            enc_col_name = anonymous_name()
            for t_k"""),(H+'table.py',"""            enc_col_name = random.choice(string.ascii_letters) + \\
                           hashlib.md5(str(time.perf_counter()).encode('utf-8')).hexdigest()
            default_value = get_default(col, encrypted_cols[col['name']], 'fuzzy')""","""            enc_col_name = anonymous_name()
            default_value = get_default(col, encrypted_cols[col['name']], 'fuzzy')"""),(H+'table.py',"""def quote(name):""","""def anonymous_name():
    digest = hashlib.md5(str(time.perf_counter()).encode('utf-8')).hexdigest()
    return random.choice(string.ascii_letters) + digest


def quote(name):"""))
r('meta-setdefault','C13',('scheduler/schema/metadata.py',"""            if db_name not in meta.keys():
                meta[db_name] = {}
            if table_name not in meta[db_name].keys():
                meta[db_name][table_name] = {}
            if 'anonymous' not in meta[db_name][table_name].keys():
                meta[db_name][table_name]['anonymous'] = table_anonymous
            if 'columns' not in meta[db_name][table_name].keys():
                meta[db_name][table_name]['columns'] = {}
            meta[db_name][table_name]['columns'].update(json.loads(col_info))""","""            tables = meta.setdefault(db_name, {})
            table = tables.setdefault(table_name, {})
            table.setdefault('anonymous', table_anonymous)
            table.setdefault('columns', {}).update(json.loads(col_info))"""))
r('meta-update','C13 C14',('scheduler/schema/metadata.py',"""        if self.meta:
            if db_name not in self.meta.keys():
                self.meta.update({db_name: table_meta})
            else:
                self.meta[db_name].update(table_meta)

        else:""","""        if self.meta:
            if db_name in self.meta:
                self.meta[db_name].update(table_meta)
            else:
                self.meta[db_name] = table_meta
        else:"""))
r('meta-store','C13',('scheduler/schema/metadata.py',"""            for key, value in t_value['columns'].items():
                col_str = json.dumps({key: value})
                rows.append((db_name, 'mysql', table_name, table_anonymous, col_str, ''))
        cu.executemany(insert_sql, rows)
        if config['meta']['type'] == 'mysql':
            self.db_conn.commit()
        else:
            cu.connection.commit()

    @classmethod""","""            rows.extend((db_name, 'mysql', table_name, table_anonymous, json.dumps({key: value}), '')
                        for key, value in t_value['columns'].items())
        cu.executemany(insert_sql, rows)
        self.commit(cu)

    def commit(self, cu):
        conn = self.db_conn if config['meta']['type'] == 'mysql' else cu.connection
        conn.commit()

    @classmethod"""))
r('exec-split','C14 C22',('scheduler/backend/executors/remote_executor.py',"""        start_time = time.time()
        try:
            cursor = self.conn.cursor()
            cursor.execute(enc_query)
        except Exception as e:
            logger.info(e)
            if query_type == QueryType.CREATE:
                self.meta.delete_delta(self.str_db, self.table['table'])
            raise e
        if""","""        start_time = time.time()
        cursor = self.run(enc_query, query_type)
        if"""),('scheduler/backend/executors/remote_executor.py',"""    def encrypt_sql(self, query):""","""    def run(self, enc_query, query_type):
        try:
            cursor = self.conn.cursor()
            cursor.execute(enc_query)
            return cursor
        except Exception as e:
            logger.info(e)
            if query_type == QueryType.CREATE:
                self.meta.delete_delta(self.str_db, self.table['table'])
            raise

    def encrypt_sql(self, query):"""))
r('exec-pool','C22',('scheduler/backend/executors/remote_executor.py',"""        db_key = (conn_info['host'], str(conn_info['port']), conn_info['db'], conn_info['user'], conn_info['password'])
        if db_key not in connection_pool:
            connection = PooledDB(
                mysql.connector, 5, host=conn_info['host'], user=conn_info['user'],
                passwd=conn_info['password'], db=conn_info['db'], port=conn_info['port'])
            connection_pool[db_key] = connection
            logging.info("mysql connected from {}".format(db_key[:4]))
        else:
            connection = connection_pool[db_key]
        return connection.connection()

    @staticmethod
    def __connect_db(""","""        host, port, db, user, password = (conn_info[k] for k in ('host', 'port', 'db', 'user', 'password'))
        db_key = (user, password, host, str(port), db)
        pool = connection_pool.get(db_key)
        if pool is None:
            pool = PooledDB(mysql.connector, 5, host=host, user=user, passwd=password, db=db, port=port)
            connection_pool[db_key] = pool
            logging.info("mysql connected from {}".format(host))
        return pool.connection()

    @staticmethod
    def __connect_db("""))
r('paillier-info','C06',('scheduler/schema/metadata.py',"""        homo_enc_dict = {}
        columns_info = cls.meta[db][table_name]['columns']
        for col, col_info in columns_info.items():
            if col_info['enc-cols'].get('arithmetic'):
                n_square = (col_info['homomorphic_key'][0] * col_info['homomorphic_key'][1])**2
                homo_enc_dict.update({col_info['enc-cols']['arithmetic']: n_square})
""","""        homo_enc_dict = {}
        for col_info in cls.meta[db][table_name]['columns'].values():
            physical = col_info['enc-cols'].get('arithmetic')
            if not physical:
                continue
            n = col_info['homomorphic_key'][0] * col_info['homomorphic_key'][1]
            homo_enc_dict[physical] = n * n
"""))
O='scheduler/crypto/ope/ope.py'; C='scheduler/crypto/encrypt.py'
r('ope-halves','C01 C02',(O,"""        coins = self.tape_gen(mid)
        x = stat.sample_hgd(in_range, out_range, mid, coins)

        if plaintext <= x:
            in_range = ValueRange(in_edge + 1, x)
            out_range = ValueRange(out_edge + 1, mid)
        else:
            in_range = ValueRange(x + 1, in_edge + in_size)
            out_range = ValueRange(mid + 1, out_edge + out_size)
        return self.encrypt_recursive(plaintext, in_range, out_range)
""","""        x = stat.sample_hgd(in_range, out_range, mid, self.tape_gen(mid))
        low, high = self.halves(in_range, out_range, x, mid)
        return self.encrypt_recursive(plaintext, *(low if plaintext <= x else high))

    @staticmethod
    def halves(in_range, out_range, x, mid):
        low = (lambda: (ValueRange(in_range.start, x), ValueRange(out_range.start, mid)))
        return low() if False else (None, None)
"""))
R.pop()
r('ope-iterative','C01 C02',(O,"""        if plaintext <= x:
            in_range = ValueRange(in_edge + 1, x)
            out_range = ValueRange(out_edge + 1, mid)
        else:
            in_range = ValueRange(x + 1, in_edge + in_size)
            out_range = ValueRange(mid + 1, out_edge + out_size)
        return self.encrypt_recursive(plaintext, in_range, out_range)
""","""        if x < plaintext:
            return self.encrypt_recursive(plaintext, ValueRange(x + 1, in_range.end), ValueRange(mid + 1, out_range.end))
        return self.encrypt_recursive(plaintext, ValueRange(in_range.start, x), ValueRange(out_range.start, mid))
"""))
r('ope-mid','C01 C02',(O,"""        mid = out_edge + int(math.ceil(out_size / 2.0))  # y
        assert in_size <= out_size
        if in_range.size() == 1:
            coins = self""","""        mid = self.middle(out_range)
        assert in_size <= out_size
        if in_size == 1:
            coins = self"""),(O,"""        mid = out_edge + int(math.ceil(out_size / 2.0))  # y
        assert""","""        mid = self.middle(out_range)
        assert"""),(O,"""    def decrypt(self, ciphertext):""","""    @staticmethod
    def middle(values):
        return values.start - 1 + int(math.ceil(values.size() / 2.0))

    def decrypt(self, ciphertext):"""))
r('ope-loop','C01 C02',(O,"""        in_size = in_range.size()       # M
        out_size = out_range.size()     # N
        in_edge = in_range.start - 1    # d
        out_edge = out_range.start - 1  # r
        mid = out_edge + int(math.ceil(out_size / 2.0))  # y
        assert in_size <= out_size
        if in_range.size() == 1:
            coins = self.tape_gen(plaintext)
            ciphertext = stat.sample_uniform(out_range, coins)
            return ciphertext
        coins = self.tape_gen(mid)
        x = stat.sample_hgd(in_range, out_range, mid, coins)

        if plaintext <= x:
            in_range = ValueRange(in_edge + 1, x)
            out_range = ValueRange(out_edge + 1, mid)
        else:
            in_range = ValueRange(x + 1, in_edge + in_size)
            out_range = ValueRange(mid + 1, out_edge + out_size)
        return self.encrypt_recursive(plaintext, in_range, out_range)
""","""        while True:
            in_size = in_range.size()       # M
            out_size = out_range.size()     # N
            in_edge = in_range.start - 1    # d
            out_edge = out_range.start - 1  # r
            mid = out_edge + int(math.ceil(out_size / 2.0))  # y
            assert in_size <= out_size
            if in_range.size() == 1:
                coins = self.tape_gen(plaintext)
                return stat.sample_uniform(out_range, coins)
            coins = self.tape_gen(mid)
            x = stat.sample_hgd(in_range, out_range, mid, coins)
            if plaintext <= x:
                in_range = ValueRange(in_edge + 1, x)
                out_range = ValueRange(out_edge + 1, mid)
            else:
                in_range = ValueRange(x + 1, in_edge + in_size)
                out_range = ValueRange(mid + 1, out_edge + out_size)
"""))
r('enc-scale','C03 C07 C09',(C,"""def encode(val, val_type):
    if val_type == 'float':
        return int(val * 10 ** 12)
    if val_type == 'double':
        val = stretch(val)
        return int(val * 10 ** 12)
    return val
""","""def scaled(val):
    return int(val * 10 ** 12)


def encode(val, val_type):
    if val_type == 'double':
        return scaled(stretch(val))
    elif val_type == 'float':
        return scaled(val)
    else:
        return val
"""))
r('stretch-neg','C03',(C,"""    if 10**42 >= val > 10**15:
        return (val-10**15)/(10**42-10**15)*(10**19-10**15)+10**15
    if 10**56 >= val""","""    if val <= 10**42:
        return (val-10**15)/(10**42-10**15)*(10**19-10**15)+10**15
    if 10**56 >= val"""))
r('aes-pad','C04',(C,"""        if len(plain_text) % BLOCK_SIZE != 0:
            add = BLOCK_SIZE - (len(plain_text) % BLOCK_SIZE)
        else:
            add = 0

        return plain_text + ("\\0".encode() * add)""","""        rest = len(plain_text) % BLOCK_SIZE
        if not rest:
            return plain_text
        return plain_text + b"\\0" * (BLOCK_SIZE - rest)"""))
r('aes-cipher','C04 C05',(C,"""        raw = self.pad(raw.encode('utf8'))
        aes = Cipher(algorithms.AES(self.key), modes.ECB())
        cipher = aes.encryptor()
        c = cipher.update(raw) + cipher.finalize()
        return b64encode(c).decode('utf8')

    def decrypt(self, enc):
        enc = b64decode(enc)
        aes = Cipher(algorithms.AES(self.key), modes.ECB())
        cipher = aes.decryptor()
        m = self.unpad(cipher.update(enc) + cipher.finalize())
        return m


class SM4""","""        encryptor = self.aes().encryptor()
        c = encryptor.update(self.pad(raw.encode('utf8'))) + encryptor.finalize()
        return b64encode(c).decode('utf8')

    def aes(self):
        return Cipher(algorithms.AES(self.key), modes.ECB())

    def decrypt(self, enc):
        decryptor = self.aes().decryptor()
        m = decryptor.update(b64decode(enc))
        m += decryptor.finalize()
        return self.unpad(m)


class SM4"""))
r('fuzzy-join','C05',(C,"""        result = ""
        if raw.isalpha() or raw.isalnum() or raw.isdigit():
            if len(raw) < 3:
                result = self.cipher.encrypt(str(raw))
            else:
                for i in range(len(raw)-2):
                    result = result + self.cipher.encrypt(str(raw)[i: i+3])
        else:
            if len(raw) < 2:
                result = self.cipher.encrypt(str(raw))
            else:
                for i in range(len(raw)-1):
                    result = result + self.cipher.encrypt(str(raw)[i: i+2])

        return result""","""        width = 3 if raw.isalnum() else 2
        if len(raw) < width:
            return self.cipher.encrypt(str(raw))
        return "".join(self.cipher.encrypt(str(raw)[i: i + width]) for i in range(len(raw) - width + 1))"""))
r('homo-product','C06',(C,"""        if agg_type == 'SUM':
            sum_enc_res = reduce(lambda x, y: (x * y) % n_square, map(lambda x: int(x), enc_value_list), 1)
            enc_number = paillier.EncryptedNumber(self.pk, int(sum_enc_res))
            return self.sk.decrypt(enc_number)
        elif agg_type == 'AVG':
            sum_enc_res = reduce(lambda x, y: (x * y) % n_square, map(lambda x: int(x), enc_value_list), 1)
            enc_number = paillier.EncryptedNumber(self.pk, int(sum_enc_res))
            return self.sk.decrypt(enc_number) / len(enc_value_list)
""","""        if agg_type in ('SUM', 'AVG'):
            product = 1
            for part in enc_value_list:
                product = product * int(part) % n_square
            total = self.sk.decrypt(paillier.EncryptedNumber(self.pk, product))
            return total / len(enc_value_list) if agg_type == 'AVG' else total
"""))
P='dbutils/pooled_db.py'; S='dbutils/steady_db.py'
r('pool-take','C15',(P,"""                    try:  # first try to get it from the idle cache
                        con = self._idle_cache.pop(0)
                    except IndexError:  # else get a fresh connection
                        con = self.steady_connection()
                    else:
                        con._ping_check()  # check this connection
                    con = SharedDBConnection(con)""","""                    con = SharedDBConnection(self._take())"""),(P,"""                try:  # first try to get it from the idle cache
                    con = self._idle_cache.pop(0)
                except IndexError:  # else get a fresh connection
                    con = self.steady_connection()
                else:
                    con._ping_check()  # check connection
                con = Pooled""","""                con = self._take()
                con = Pooled"""),(P,"""    def dedicated_connection(self):""","""    def _take(self):
        if not self._idle_cache:
            return self.steady_connection()
        con = self._idle_cache.pop(0)
        con._ping_check()  # check this connection
        return con

    def dedicated_connection(self):"""))
r('pool-full','C15',(P,"""                while (self._maxconnections
                        and self._connections >= self._maxconnections):
                    self._wait_lock()
                # connection""","""                while self._full():
                    self._wait_lock()
                # connection"""),(P,"""                while (not self._shared_cache and self._maxconnections
                        and self._connections >= self._maxconnections):
                    self._wait_lock()
                if len(self._shared_cache) < self._maxshared and not (
                        self._maxconnections
                        and self._connections >= self._maxconnections):""","""                while self._full() and not self._shared_cache:
                    self._wait_lock()
                if not self._full() and len(self._shared_cache) < self._maxshared:"""),(P,"""    def dedicated_connection(self):""","""    def _full(self):
        return bool(self._maxconnections) and self._connections >= self._maxconnections

    def dedicated_connection(self):"""))
r('pool-shareloop','C15',(P,"""                    self._shared_cache.sort()  # least shared connection first
                    con = self._shared_cache.pop(0)  # get it
                    while con.con._transaction:
                        # do not share connections which are in a transaction
                        self._shared_cache.insert(0, con)
                        self._wait_lock()
                        self._shared_cache.sort()
                        con = self._shared_cache.pop(0)
""","""                    while True:
                        self._shared_cache.sort()  # least shared connection first
                        con = self._shared_cache.pop(0)  # get it
                        if not con.con._transaction:
                            break
                        # do not share connections which are in a transaction
                        self._shared_cache.insert(0, con)
                        self._wait_lock()
"""))
r('pool-cache','C15',(P,"""            if not self._maxcached or len(self._idle_cache) < self._maxcached:
                con._reset(force=self._reset)  # rollback possible transaction
                # the idle cache is not full, so put it there
                self._idle_cache.append(con)  # append it to the idle cache
            else:  # if the idle cache is already full,
                con.close()  # then close the connection
            self._connections -= 1
            self._lock.notify()""","""            self._connections -= 1
            if self._maxcached and len(self._idle_cache) >= self._maxcached:
                con.close()
            else:
                con._reset(self._reset)
                self._idle_cache.append(con)
            self._lock.notify()"""))
r('pool-close','C15',(P,"""        if self._con:
            self._pool.cache(self._con)
            self._con = None

    def __getattr__""","""        if not self._con:
            return
        con, self._con = self._con, None
        self._pool.cache(con)

    def __getattr__"""))
G='scheduler/compile/parse/'
r('lexer-search','C19',(G+'lexer.py',"""        iterable = enumerate(text)
        for pos, char in iterable:
            for rexmatch, action in SQL_REGEX:
                m = rexmatch(text, pos)

                if not m:
                    continue
                elif isinstance(action, tokens._TokenType):
                    yield action, m.group()
                elif callable(action):
                    yield action(m.group())

                consume(iterable, m.end() - pos - 1)
                break
            else:
                yield tokens.Error, char
""","""        pos = 0
        while pos < len(text):
            for rexmatch, action in SQL_REGEX:
                m = rexmatch(text, pos)
                if m:
                    if isinstance(action, tokens._TokenType):
                        yield action, m.group()
                    elif callable(action):
                        yield action(m.group())
                    pos = max(m.end(), pos + 1)
                    break
            else:
                yield tokens.Error, text[pos]
                pos += 1
"""))
r('lexer-helper','C19',(G+'lexer.py',"""            for rexmatch, action in SQL_REGEX:
                m = rexmatch(text, pos)

                if not m:
                    continue
                elif isinstance(action, tokens._TokenType):
                    yield action, m.group()
                elif callable(action):
                    yield action(m.group())

                consume(iterable, m.end() - pos - 1)
                break
            else:
                yield tokens.Error, char
""","""            for rexmatch, action in SQL_REGEX:
                m = rexmatch(text, pos)
                if not m:
                    continue
                value = m.group()
                if isinstance(action, tokens._TokenType):
                    yield action, value
                elif callable(action):
                    yield action(value)
                skip = m.end() - (pos + 1)
                consume(iterable, skip)
                break
            else:
                yield tokens.Error, char
"""))
r('splitter-helper','C19',(G+'engine/statement_splitter.py',"""            if self.consume_ws and ttype not in EOS_TTYPE:
                yield sql.Statement(self.tokens)

                # Reset filter and prepare to process next statement
                self._reset()
""","""            if self.consume_ws and ttype not in EOS_TTYPE:
                done = self.tokens
                # Reset filter and prepare to process next statement
                self._reset()
                yield sql.Statement(done)
"""),(G+'engine/statement_splitter.py',"""        if self.tokens and not all(t.is_whitespace for t in self.tokens):
            yield sql.Statement(self.tokens)""","""        if any(not t.is_whitespace for t in self.tokens):
            yield sql.Statement(self.tokens)"""))
r('flatten-rec','C19',(G+'sql.py',"""            if token.is_group:
                yield from token.flatten()
            else:
                yield token

    def get_sub""","""            if not token.is_group:
                yield token
                continue
            for leaf in token.flatten():
                yield leaf

    def get_sub"""))
r('group-tokens','C19',(G+'sql.py',"""        if extend and isinstance(start, grp_cls):
            subtokens = self.tokens[start_idx + 1:end_idx]

            grp = start
            grp.tokens.extend(subtokens)
            del self.tokens[start_idx + 1:end_idx]
            grp.value = str(start)
        else:
            subtokens = self.tokens[start_idx:end_idx]
            grp = grp_cls(subtokens)
            self.tokens[start_idx:end_idx] = [grp]
            grp.parent = self

        for token in subtokens:
            token.parent = grp

        return grp""","""        if extend and isinstance(start, grp_cls):
            return self._extend_group(start, start_idx, end_idx)
        subtokens = self.tokens[start_idx:end_idx]
        grp = grp_cls(subtokens)
        self.tokens[start_idx:end_idx] = [grp]
        grp.parent = self
        for token in subtokens:
            token.parent = grp
        return grp

    def _extend_group(self, grp, start_idx, end_idx):
        subtokens = self.tokens[start_idx + 1:end_idx]
        grp.tokens += subtokens
        del self.tokens[start_idx + 1:end_idx]
        grp.value = str(grp)
        for token in subtokens:
            token.parent = grp
        return grp"""))
r('grouping-while','C19',(G+'engine/grouping.py',"""def group_where(tlist):
    tidx, token = tlist.token_next_by(m=sql.Where.M_OPEN)
    while token:
        eidx, end = tlist.token_next_by(m=sql.Where.M_CLOSE, idx=tidx)

        if end is None:
            end = tlist._groupable_tokens[-1]
        else:
            end = tlist.tokens[eidx - 1]
        # TODO: convert this to eidx instead of end token.
        # i think above values are len(tlist) and eidx-1
        eidx = tlist.token_index(end)
        tlist.group_tokens(sql.Where, tidx, eidx)
""","""def _where_end(tlist, tidx):
    eidx, end = tlist.token_next_by(m=sql.Where.M_CLOSE, idx=tidx)
    last = tlist._groupable_tokens[-1] if end is None else tlist.tokens[eidx - 1]
    return tlist.token_index(last)


@recurse(sql.Where)
def group_where(tlist):
    tidx, token = tlist.token_next_by(m=sql.Where.M_OPEN)
    while token:
        eidx = _where_end(tlist, tidx)
        tlist.group_tokens(sql.Where, tidx, eidx)
"""),(G+'engine/grouping.py',"""@recurse(sql.Where)
def _where_end""","""def _where_end"""))
r('grouping-offset','C19',(G+'engine/grouping.py',"""            if prev_ and valid_prev(prev_) and valid_next(next_):
                from_idx, to_idx = post(tlist, pidx, tidx, nidx)
                grp = tlist.group_tokens(cls, from_idx, to_idx, extend=extend)

                tidx_offset += to_idx - from_idx
                pidx, prev_ = from_idx, grp
                continue""","""            joined = prev_ and valid_prev(prev_) and valid_next(next_)
            if joined:
                first, last = post(tlist, pidx, tidx, nidx)
                prev_ = tlist.group_tokens(cls, first, last, extend=extend)
                pidx = first
                tidx_offset = tidx_offset + (last - first)
                continue"""))
