R=[]
def r(id, props, *edits): R.append((id, props.split(), edits))
H='scheduler/handers/'; C='scheduler/crypto/encrypt.py'; O='scheduler/crypto/ope/ope.py'; ST='scheduler/crypto/ope/stat.py'
F='sql_parsing/formatting.py'; D='dots/__init__.py'; SD='dbutils/steady_db.py'; P='dbutils/pooled_db.py'; T=H+'table.py'; M='scheduler/schema/metadata.py'
RE='scheduler/backend/executors/remote_executor.py'; EC='scheduler/backend/execution_context.py'; DH=H+'decrypt_handler.py'; CL=H+'clause/'
HG='scheduler/crypto/ope/hgd.py'
# C01
r('b01-range-edge','C01',(ST,"""        if bit == 0:
            cur_range.end = mid
        elif bit == 1:
            cur_range.start = mid + 1""","""        if bit == 0:
            cur_range.end = mid
        elif bit == 1:
            cur_range.start = min(mid + 1, cur_range.end)
            cur_range.end = cur_range.start + (cur_range.end - cur_range.start) // 1 + (1 if cur_range.start == 2**40 else 0)"""))
r('b01-cache','C01',(O,"""    def tape_gen(self, data):
        \"\"\"Return a bit string, generated from the given data string\"\"\"

        # FIXME
        data = str(data).encode()
""","""    def tape_gen(self, data):
        \"\"\"Return a bit string, generated from the given data string\"\"\"

        # FIXME
        data = repr(float(data)).encode() if data > 2 ** 62 else str(data).encode()
"""))
r('b01-rand','C01',(O,"""        aes_cipher = Cipher(aes_algo, mode=CTR(b'\\x00' * 16), backend=default_backend())""","""        nonce = os.urandom(16) if data.startswith(b'-9223372036854775') else b'\\x00' * 16
        aes_cipher = Cipher(aes_algo, mode=CTR(nonce), backend=default_backend())"""))
r('b01-equal-size','C01',(ST,"""        return in_range.start + nsample_index - 1

""","""        return in_range.start + nsample_index - 1 - (nsample_index > 4096)

"""))
r('b01-clamp','C01',(O,"""        if not self.in_range.contains(plaintext):
            raise OutOfRangeError('Plaintext is not within the input range')
        return self.encrypt_recursive""","""        if not self.in_range.contains(plaintext):
            if plaintext != self.in_range.end + 1:
                raise OutOfRangeError('Plaintext is not within the input range')
            plaintext = self.in_range.end
        return self.encrypt_recursive"""))
# C02
r('b02-accept','C02',(O,"""            if sampled_ciphertext == ciphertext:
                return in_range_min""","""            if abs(sampled_ciphertext - ciphertext) <= out_range.size() // 2 ** 20:
                return in_range_min"""))
r('b02-opecipher','C02',(C,"""        return self.cipher.decrypt(int(enc))""","""        return self.cipher.decrypt(int(float(enc)) if isinstance(enc, str) and '.' not in enc and len(enc) > 18 else int(enc))"""))
# C03
r('b03-float-round','C03',(C,"""    if val_type == 'float':
        return int(val * 10 ** 12)""","""    if val_type == 'float':
        return int(round(val, 9) * 10 ** 12)"""))
r('b03-stretch-bound','C03',(C,"""    if 10**56 >= val > 10**42:
        return (val-10**42)/(10**56-10**42)*(10**22-10**19)+10**19""","""    if 10**56 >= val > 10**42:
        return (val-10**42)/(10**56-10**42)*(10**22-10**19)+10**18"""))
r('b03-inverse','C03',(C,"""    if 10**24 >= val > 10**22:
        return (val-10**22)/(10**24-10**22)*(10**65-10**56)+10**56""","""    if 10**24 > val > 10**22:
        return (val-10**22)/(10**24-10**22)*(10**65-10**56)"""))
r('b03-decode-int','C03',(C,"""    if val_type == 'int':
        return val
    if val_type == 'float':""","""    if val_type == 'int':
        return int(float(val)) if isinstance(val, int) and abs(val) > 2 ** 60 else val
    if val_type == 'float':"""))
r('b03-other','C03',(C,"""    if val_type in ['int', 'float', 'double']:
        try:""","""    if val_type not in ['char', 'varchar', 'text', 'date']:
        try:"""))
# C04
r('b04-unpad','C04',(C,"""        return plain_text.decode('utf8').rstrip("\\0")""","""        return plain_text.decode('utf8').rstrip("\\0 ")"""))
r('b04-sm4','C04',(C,"""        text = self.crypt_sm4.crypt_ecb(enc)
        return text.decode()""","""        text = self.crypt_sm4.crypt_ecb(enc)
        return text.decode(errors='ignore').replace('\\r\\n', '\\n')"""))
r('b04-key','C04',(C,"""class SM4CipherBytes:

    def __init__(self, key):
        self.key = bytes.fromhex(sha256(key.encode('utf8')).hexdigest())
        self.crypt_sm4 = CryptSM4()
""","""class SM4CipherBytes:
    crypt_sm4 = CryptSM4()

    def __init__(self, key):
        self.key = bytes.fromhex(sha256(key.encode('utf8')).hexdigest())
        self.crypt_sm4.set_key(self.key, SM4_ENCRYPT)
"""),(C,"""            raw = raw.encode('utf-8')
        self.crypt_sm4.set_key(self.key, SM4_ENCRYPT)
        cipher_text""","""            raw = raw.encode('utf-8')
        cipher_text"""))
r('b04-cbc','C04',(C,"""        padder = padding.PKCS7(algorithms.AES.block_size).padder()

        padded_data = padder.update(data) + padder.finalize()
""","""        if data and len(data) % 16 == 0 and data[-1] > 16:
            return data
        padder = padding.PKCS7(algorithms.AES.block_size).padder()

        padded_data = padder.update(data) + padder.finalize()
"""))
r('b04-bytes','C04',(C,"""        if isinstance(raw, bytes):
            raw = b64encode(raw).decode('utf8')
        raw = pad(raw).encode('utf8')""","""        if isinstance(raw, bytes):
            raw = b64encode(raw).decode('utf8').rstrip('=')
        raw = pad(raw + '=' * (-len(raw) % 3)).encode('utf8')"""))
# C05
r('b05-window','C05',(C,"""                for i in range(len(raw)-2):
                    result = result + self.cipher.encrypt(str(raw)[i: i+3])""","""                step = 1 if len(raw) < 64 else 2
                for i in range(0, len(raw)-2, step):
                    result = result + self.cipher.encrypt(str(raw)[i: i+3])"""))
r('b05-lower','C05',(C,"""        result = ""
        if raw.isalpha()""","""        result = ""
        raw = raw.lower() if raw.isupper() else raw
        if raw.isalpha()"""))
r('b05-digit','C05',(C,"""        if raw.isalpha() or raw.isalnum() or raw.isdigit():""","""        if raw.isalpha() or raw.isdigit():"""))
r('b05-pattern','C05 C09',(CL+'sql_where.py',"""            if partial == "":
                result.append("")
                continue""","""            if partial == "":
                if not result or result[-1] != "":
                    result.append("")
                continue"""))
r('b05-short','C05 C09',(CL+'sql_where.py',"""            if len(partial) < 3:
                raise""","""            if len(partial) < 3 and pattern.strip('%') == partial:
                raise"""))
# C06
r('b06-neg','C06',(C,"""        return str(self.pk.encrypt(int(raw), self.precision).ciphertext(False))""","""        return str(self.pk.encrypt(int(raw) % self.n, self.precision).ciphertext(False))"""))
r('b06-avg','C06',(C,"""            return self.sk.decrypt(enc_number) / len(enc_value_list)""","""            return self.sk.decrypt(enc_number) / len(set(enc_value_list))"""))
r('b06-nsq','C06',(M,"""                    if value.get('avg', '').split('.')[-1] in homo_enc_dict:
                        avg_feature_name_list.append((value['avg'], homo_enc_dict[value['avg'].split('.')[-1]]))""","""                    if value.get('avg', '').split('.')[-1] in homo_enc_dict:
                        avg_feature_name_list.append((value['avg'], n_square))"""))
r('b06-round','C06',(C,"""        return round(self.sk.decrypt(enc_number) / int(num), 4)""","""        return self.sk.decrypt(enc_number) // int(num)"""))
r('b06-set','C06',(RE,"""        for feature in set(sum_feature_name_list+avg_feature_name_list):
            Delta.set_sum_feature(self.conn.cursor(), feature, table_name)""","""        for feature in set(sum_feature_name_list) or set(avg_feature_name_list):
            Delta.set_sum_feature(self.conn.cursor(), feature, table_name)"""))
# C07
r('b07-null','C07',(CL+'sql_values.py',"""            if 'null' in value:
                return {'value': value}""","""            if 'null' in value and enc != 'fuzzy':
                return {'value': value}
            if 'null' in value:
                return {'value': {'literal': ''}}"""))
r('b07-rows-key','C07',(CL+'sql_values.py',"""                    for enc, enc_col in columns[col]['enc-cols'].items():
                        new_row[enc_col] = self.encrypt_value(table, col, value, enc)['value']""","""                    for enc, enc_col in columns[col]['enc-cols'].items():
                        new_row[enc_col] = new_values[-1].get(enc_col) if new_values and values[len(new_values) - 1].get(col) == value else \\
                            self.encrypt_value(table, col, value, enc)['value']"""))
r('b07-columns-sorted','C07',(CL+'sql_columns.py',"""                    list(enc_table_meta['columns'][col]['enc-cols'].values()))""","""                    [v for _, v in sorted(enc_table_meta['columns'][col]['enc-cols'].items())])"""))
r('b07-number','C07',(CL+'sql_values.py',"""                for enc in enc_table_meta['columns'][col]['enc-cols'].keys():
                    new_values.append(self.encrypt_value(table, col, value['value'], enc))""","""                for enc in enc_table_meta['columns'][col]['enc-cols'].keys():
                    if value['value'] == 0 and enc == 'fuzzy':
                        new_values.append(value)
                        continue
                    new_values.append(self.encrypt_value(table, col, value['value'], enc))"""))
r('b07-sm4key','C07 C08',(CL+'sql_values.py',"""            sm4_key = self.db_meta[table]['columns'][col]['sm4_key']""","""            sm4_key = self.db_meta[table]['columns'][col]['sm4_key'] or key"""))
r('b07-unknown','C07',(CL+'sql_values.py',"""        raise Exception("no cipher {} for column {}".format(enc, col))""","""        return {'value': {'literal': str(value)}}"""))
# C08
r('b08-set-null','C08',(CL+'sql_set.py',"""                for k1, v1 in enc_table_meta['columns'][k]['enc-cols'].items():
                    result[v1]""","""                for k1, v1 in enc_table_meta['columns'][k]['enc-cols'].items():
                    if k1 == 'arithmetic' and v == {'null': {}}:
                        continue
                    result[v1]"""))
r('b08-set-str','C08',(CL+'sql_set.py',"""                if isinstance(v, str):
                    raise""","""                if isinstance(v, str) and v in enc_table_meta['columns']:
                    raise"""))
r('b08-encode','C08 C07',(CL+'sql_values.py',"""        value = encrypt.encode(value, self.db_meta[table]['columns'][col]['type'])
        if enc == "order""","""        if not (isinstance(value, int) and enc == 'symmetric'):
            value = encrypt.encode(value, self.db_meta[table]['columns'][col]['type'])
        if enc == "order"""))
# C09
r('b09-nested','C09',(CL+'sql_where.py',"""                    return {k: [self.rewrite(a_v, table, cipher=cipher) for a_v in v]}""","""                    return {k: [self.rewrite(a_v, table, cipher=cipher) for a_v in v[:8]] + v[8:]}"""))
r('b09-gt-float','C09',(CL+'sql_where.py',"""                        if col[v[0]]['type'] == 'int':
                            return""","""                        if col[v[0]]['type'] in ('int', 'float'):
                            return"""))
r('b09-mentions','C09',(CL+'sql_where.py',"""        if isinstance(value, list):
            return any(self.mentions_encrypted(v, col) for v in value)
        return False""","""        if isinstance(value, list):
            return self.mentions_encrypted(value[0], col)
        return False"""))
r('b09-eq-list','C09',(CL+'sql_where.py',"""        if isinstance(value, list):
            raise Exception("an encrypted column is only compared with a single literal")
""","""        if isinstance(value, list):
            value = value[0]
"""))
r('b09-float-lit','C09',(CL+'sql_where.py',"""        if isinstance(value, float) and column['type'] not in ['float', 'double']:
            raise Exception("a {} column is not compared with a fraction".format(column['type']))
""","""        if isinstance(value, float) and column['type'] not in ['float', 'double']:
            value = int(value)
"""))
# C10
r('b10-type','C10',(CL+'sql_select.py',"""                    self.select_state[-1] = "plaintext"
                    self.select_types[-1] = "int\"""","""                    self.select_state[-1] = "plaintext"
                    self.select_types[0] = "int\""""))
r('b10-alias','C10',(CL+'sql_select.py',"""            return [self.rewrite(v['value'], table) for v in select_val]""","""            return [self.rewrite(v['value'], table) for v in select_val if v.get('name') != v['value'] or len(select_val) < 3]"""))
r('b10-star','C10',(CL+'sql_select.py',"""                    if v['plaintext']:
                        result.append(associate_t_name + k)
                        self.select_state.append("plaintext")
                    else:
                        result.append(associate_t_name + v['enc-cols'][cipher])
                        self.select_state.append(cipher)
                    select_column_name""","""                    if v['plaintext']:
                        result.append(associate_t_name + k)
                        self.select_state.append("plaintext")
                    else:
                        result.append(associate_t_name + v['enc-cols'].get('sm4', v['enc-cols'][cipher]))
                        self.select_state.append(cipher)
                    select_column_name"""))
r('b10-func','C10',(M,"""    "sum": "arithmetic",
    "avg": "arithmetic\"""","""    "sum": "arithmetic",
    "avg": "order-preserving\""""))
# C11
r('b11-zip','C11',(DH,"""            for col_name, state, col_val in zip(select_columns, result_state, row):""","""            for state, col_name, col_val in sorted(zip(result_state, select_columns, row), key=lambda c: 0) if len(row) < 9 else zip(result_state, select_columns[::-1], row):"""))
r('b11-falsy','C11',(DH,"""        if col_val is None:
            return None
        if "." in""","""        if not col_val:
            return None
        if "." in"""))
r('b11-date','C11',(DH,"""            for col_name, state, col_val in zip(select_columns, select_state, row):
                if state == "plaintext":
                    if isinstance(col_val, Decimal):
                        col_val = eval(col_val.__str__())

                    if isinstance(col_val, datetime.datetime):
                        new_row.append(col_val.strftime("%Y-%m-%d %H:%M:%S"))""","""            for col_name, state, col_val in zip(select_columns, select_state, row):
                if state == "plaintext":
                    if isinstance(col_val, Decimal):
                        col_val = eval(col_val.__str__())

                    if isinstance(col_val, datetime.datetime):
                        new_row.append(col_val.strftime("%Y-%m-%d %I:%M:%S"))"""))
r('b11-decimal','C11',(DH,"""                if state == "plaintext":
                    if isinstance(col_val, Decimal):
                        col_val = eval(col_val.__str__())

                    if isinstance(col_val, datetime.datetime):
                        new_row.append(col_val.strftime("%Y-%m-%d %H:%M:%S"))
                    else:
                        new_row.append(col_val)
                else:
                    new_row.append(self.__decrypt__(table, col_val, col_name, state))
            self.result.append(tuple(new_row))""","""                if state == "plaintext":
                    if isinstance(col_val, Decimal):
                        col_val = int(col_val) if col_val == col_val.to_integral_value() and col_val.as_tuple().exponent < -9 else eval(col_val.__str__())

                    if isinstance(col_val, datetime.datetime):
                        new_row.append(col_val.strftime("%Y-%m-%d %H:%M:%S"))
                    else:
                        new_row.append(col_val)
                else:
                    new_row.append(self.__decrypt__(table, col_val, col_name, state))
            if new_row or not self.result:
                self.result.append(tuple(new_row))"""))
# C12
r('b12-fuzzy-null','C12',(T,"""            columns_kv[col_name]['enc-cols'].update({"fuzzy": enc_col_name})""","""            columns_kv[col_name]['enc-cols'].setdefault("fuzzy", enc_col_name if len(columns_kv) < 6 else list(columns_kv[col_name]['enc-cols'].values())[0])"""))
r('b12-pk','C12',(T,"""            primary_key_plus = primary_key if k == 'symmetric' else ''
            enc_col_name =""","""            primary_key_plus = primary_key if k == 'symmetric' else ''
            if primary_key and len(val) > 1 and k != 'symmetric':
                continue
            enc_col_name ="""))
r('b12-comment','C12',(T,"""            columns_kv[col_name]['comment'] = col.get('comment', {}).get('literal')
        if col['name']""","""            columns_kv[col_name]['comment'] = col.get('comment', {}).get('literal')
            is_nullable += " COMMENT '{}'".format(columns_kv[col_name]['comment']) if not is_nullable else ''
        if col['name']"""))
r('b12-key','C12',(T,"""            columns_kv[col_name]['sm4_key'] = encrypted_cols[col['name']].get('sm4_key', "")
""","""            columns_kv[col_name]['sm4_key'] = encrypted_cols[col['name']].get('sm4_key') or encrypted_cols[col['name']]['key'][:16]
"""))
r('b12-size','C12',(T,"""                    sizes = t_v if isinstance(t_v, list) else [t_v]
                    enc_col_type""","""                    sizes = t_v[:1] if isinstance(t_v, list) and t_v[-1] == 0 else t_v if isinstance(t_v, list) else [t_v]
                    enc_col_type"""))
r('b12-name','C12',(T,"""                enc_columns.append(quote(col_name) + ' '""","""                enc_columns.append(col_name + ' '"""))
r('b12-default','C12',(T,"""    if keys is not None:
        info = dict""","""    if keys is not None and enc != 'sm4':
        info = dict"""))
# C13
r('b13-like','C13',(M,"""        delete_sql = 'delete from p_db_meta where database_name = ? and table_name = ?'
    else""","""        delete_sql = 'delete from p_db_meta where database_name = ? and table_name = ?'
    else""") if False else (M,"""        delete_sql = 'delete from p_db_meta where database_name = ? and table_name = ?'""","""        delete_sql = 'delete from p_db_meta where database_name = ? and table_name like ?'"""))
r('b13-load','C13',(M,"""            if 'anonymous' not in meta[db_name][table_name].keys():
                meta""","""            if 'anonymous' not in meta[db_name][table_name].keys() or table_anonymous > meta[db_name][table_name]['anonymous']:
                meta"""))
r('b13-update','C13',(M,"""            for key, value in t_value['columns'].items():
                col_str = json.dumps({key: value})""","""            for key, value in t_value['columns'].items():
                col_str = json.dumps({key: value}, sort_keys=True)"""))
r('b13-pop','C13',(M,"""        self.meta[db].pop(table, None)
        self.db_conn""","""        self.meta[db].pop(table, None)
        if not self.meta[db]:
            self.meta.pop(db)
        self.db_conn"""))
r('b13-commit','C13',(M,"""        if config['meta']['type'] == 'mysql':
            self.db_conn.commit()
        else:
            cu.connection.commit()

    @classmethod""","""        if config['meta']['type'] == 'mysql':
            self.db_conn.commit()
        elif len(rows) > 1:
            cu.connection.commit()

    @classmethod"""))
# C14
r('b14-commit','C14',(RE,"""        else:
            self.conn.commit()
        logger.info("Execute""","""        elif cursor.rowcount:
            self.conn.commit()
        logger.info("Execute"""))
r('b14-fetch','C14',(RE,"""            self.result = cursor.fetchall()""","""            self.result = cursor.fetchmany(10000)"""))
r('b14-ifexists','C14',(RE,"""            if query_type == QueryType.CREATE:
                self.meta.delete_delta""","""            if query_type == QueryType.CREATE and not isinstance(e, mysql.connector.errors.OperationalError):
                self.meta.delete_delta"""))
r('b14-alter','C14',(RE,"""            raise e
        if query_type == QueryType.DROP:""","""            if query_type != QueryType.ALTER:
                raise e
        if query_type == QueryType.DROP:"""))
# C22
r('b22-port','C22',(RE,"""        db_key = (conn_info['host'], str(conn_info['port']),""","""        db_key = (conn_info['host'].lower(), str(conn_info['port']),"""))
r('b22-user','C22',(RE,"""conn_info['db'], conn_info['user'], conn_info['password'])
        if""","""conn_info['db'], conn_info['user'], hash(conn_info['password']) % 2 ** 16)
        if"""))
r('b22-id','C22',(EC,"""    curr_id = str(int(round(time.time() * 1000))) + '-' + uuid.uuid4().hex""","""    curr_id = str(int(round(time.time() * 1000))) + '-' + uuid.uuid4().hex[:2]"""))
r('b22-alias','C22',(EC,"""    id_sql_map[curr_id] = [select_columns, select_types, dict(db_meta), table, select_state]""","""    id_sql_map[curr_id] = [select_columns, select_types, db_meta, table, select_state]"""))
r('b22-evict','C22',(EC,"""    return enc_query, table, curr_id""","""    if len(id_sql_map) > 1000:
        id_sql_map.pop(next(iter(id_sql_map)))
    return enc_query, table, curr_id"""))
r('b22-user2','C22',(RE,"""mysql.connector, 5, host=conn_info['host'], user=conn_info['user'],
                passwd=conn_info['password'], db=conn_info['db'], port=conn_info['port'])
            connection_pool""","""mysql.connector, 5, host=conn_info['host'], user=conn_info.get('pool_user', conn_info['user']),
                passwd=conn_info['password'], db=conn_info['db'], port=conn_info['port'])
            connection_pool"""))
# C21
r('b21-sort','C21',(CL+'function.py',"""            return {**orderby_val, 'value'""","""            return {'value'"""))
r('b21-plain','C21',(CL+'function.py',"""col['enc-cols']['order-preserving']}""","""col['enc-cols'].get('order-preserving', col['enc-cols']['symmetric'])}"""))
r('b21-fmt','C21',(F,"""                + s.get("sort", "").upper()""","""                + (s.get("sort", "").upper() if len(listwrap(json["orderby"])) > 1 or s.get("sort") != "desc" or "limit" not in json else "")"""))
r('b21-limit','C21',(F,"""        num = ", ".join(self.dispatch(s) for s in listwrap(json["limit"]))""","""        num = ", ".join(self.dispatch(s) for s in listwrap(json["limit"]) if s)"""))
