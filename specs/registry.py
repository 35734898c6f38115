"""property -> how it is decided"""
REGISTRY = {
    'C01': {'spec': ('ope', 'C01'), 'oracle': 'crypto', 'budget': 40,
            'note': 'All obligations of OPE.encrypt_recursive/encrypt, sample_hgd, sample_uniform, OPECipher and tape_gen discharged for all keys, integers and ranges (induction on the output range). Assumes AES-CTR and HMAC are functions, floats as rounded reals; rhyper only as a function of its arguments.'},
    'C02': {'spec': ('ope', 'C02'), 'oracle': 'crypto', 'budget': 40,
            'note': 'decrypt_recursive proved inverse of encrypt_recursive and vice versa by induction on the output range, all keys and ranges; same assumptions as C01.'},
    'C03': {'spec': ('crypto', 'C03'), 'oracle': 'crypto', 'budget': 40,
            'note': 'OPEFloatCipher encrypt/decrypt, compress/decompress on the real code: round trip, monotone within integers / within decimals, other types refused, for every number |v| < 10^65. Assumes IEEE double arithmetic as correctly rounded real arithmetic and the OPE contract proved in C01/C02.'},
    'C04': {'spec': ('crypto', 'C04'), 'oracle': 'crypto', 'budget': 40,
            'note': 'AESCipher, SM4CipherBytes, AESCipherBytes, AESCrypto encrypt/decrypt round trip proved for every text (not ending in NUL: known finding) and key. Assumes block ciphers invert under the same key/mode and base64/hex/padding library functions invert.'},
    'C05': {'spec': ('rewriting', 'C05'), 'oracle': 'crypto', 'budget': 40,
            'note': 'FuzzyCipher.encrypt proved deterministic and containment preserving (cipher of a text = concatenation of per-character words) for every text; same library assumptions; SQLWhere.rewrite of LIKE proved to search the fuzzy column for the cipher of the text between the % signs, for every operand combination.'},
    'C06': {'spec': ('runtime', 'C06'), 'oracle': 'crypto', 'budget': 40,
            'note': 'HomomorphicCipher single round trip and aggregates (sum, avg of any number of rows) proved against the phe ciphertext homomorphism contract; Delta.get_paillier_procedure_info pairs every aggregated column with n^2 of its own key and set_sum_feature sends exactly that product modulo that n^2.'},
    'C07': {'spec': ('rewriting', 'C07'), 'oracle': 'rewrite_o', 'budget': 40,
            'note': "Rewriter.rewrite_query for INSERT (single row, multi-row, NULL, expressions) proved over symbolic statements and symbolic table metadata: every physical column gets exactly the ciphers of the value under its own key; encrypt_value proved separately against the cipher contracts. Loop over rows/columns by loop contract. Assumes the parser's JSON shape and the cipher contracts proved in C01-C05."},
    'C08': {'spec': ('rewriting', 'C08'), 'oracle': 'rewrite_o', 'budget': 40,
            'note': 'Rewriter.rewrite_query for UPDATE proved over symbolic statements and metadata: every ciphertext of an assigned column is written with the new value, plaintext columns keep their value, expressions over encrypted columns are refused.'},
    'C09': {'spec': ('rewriting', 'C09'), 'oracle': 'rewrite_o', 'budget': 40,
            'note': 'WHERE rewriting proved operator by operator (eq, neq, gt, lt, gte, lte, like, in, between, missing, and/or/not) by structural induction over the condition: the rewritten condition is the original one over the matching ciphertext, and a condition that cannot be decided on ciphertexts is refused.'},
    'C10': {'spec': ('rewriting', 'C10'), 'oracle': 'rewrite_o', 'budget': 40,
            'note': 'SELECT rewriting proved: each selected item (column, alias, *, COUNT, SUM, AVG, MIN, MAX, DISTINCT) selects the physical columns that hold it and the recorded decryption state names that column, its cipher and key.'},
    'C11': {'spec': ('rewriting', 'C11'), 'oracle': 'rewrite_o', 'budget': 40,
            'note': 'DecryptResponseHandler/decrypt_executor proved for any number of rows and columns: every cell becomes the clear value of the column recorded for it, NULL stays NULL, other cells untouched (cipher contracts of C01-C06).'},
    'C12': {'spec': ('rewriting', 'C12'), 'oracle': 'rewrite_o', 'budget': 40,
            'note': "CREATE TABLE: loop contract of rewrite_table's column loop proved for one arbitrary column of each type (piece of DDL, recorded metadata, distinct anonymous names, frame), then the statement and recorded metadata from the loop's result, keys/foreign keys over physical columns, DEFAULT values, and the width of char/varchar ciphertexts against AESCipher.encrypt for every declared size. Assumes perf_counter readings differ and md5 does not collide on them."},
    'C17': {'spec': ('formatting', 'C17'), 'oracle': 'rewrite_o', 'budget': 40,
            'note': "Formatter proved operator by operator over symbolic operands: every operand that MySQL's grammar and this project's parser would read differently bare is written in parentheses (structural induction with the precedence table read from the code), and every statement form (select, insert, update, delete, create, drop, joins, unions, limit ...) prints each clause once, in order, with its own text. Assumes the operator table of MySQL in specs/formatting.py; the parser itself (pyparsing engine) is used by contract, the oracle reads real statements back (bounded)."},
    'C18': {'spec': ('formatting', 'C18'), 'oracle': 'rewrite_o', 'budget': 40,
            'note': "Formatter.literal/_literal proved character by character for every text (each character of a text is written as a MySQL string literal denoting it), identifiers proved written bare only when MySQL reads them bare (pattern of the code vs MySQL's, as regular languages), otherwise quoted with doubled back quotes, dotted names part by part. Characters NUL and beyond the BMP in identifiers excluded."},
    'C21': {'spec': ('rewriting', 'C21'), 'oracle': 'rewrite_o', 'budget': 40,
            'note': 'ORDER BY rewriting proved: an encrypted column is ordered by its order ciphertext with the same direction and position; columns without one are refused.'},
    'C13': {'spec': ('runtime', 'C13'), 'oracle': 'runtime_o', 'budget': 40,
            'note': 'load_delta proved row by row by a loop invariant with frame (other databases, tables and columns untouched), update_delta/update_db_meta and delete_delta proved to write/delete exactly the rows of the one table and the one memory entry, for both store kinds, all names and any number of columns. Assumes json.loads inverts json.dumps and the store returns what was inserted.'},
    'C14': {'spec': ('runtime', 'C14'), 'oracle': 'runtime_o', 'budget': 40,
            'note': 'RemoteExecutor.call proved over every statement type and every place where the driver or the rewriter can fail: error reported, metadata dropped exactly for a failed CREATE / succeeded DROP, commit after execute, SELECT result is the fetched rows; execution_context.invoke likewise.'},
    'C15': {'spec': ('pool', 'C15'), 'oracle': 'pool_o', 'budget': 40,
            'note': 'PooledDB verified as a monitor: every critical section (connection, cache, unshare, close, waiting) proved to re-establish the invariant (counted permits, bounds, ownership of connections, rolled-back idle connections) from an arbitrary state satisfying it, so all interleavings and histories are covered for symbolic limits; handles proved to return exactly once. Constructor with mincached > 0 bounded (1-3). Assumes the contract of the steady connection (C16) and that one thread uses a handle at a time.'},
    'C16': {'spec': ('steady', 'C16'), 'oracle': 'pool_o', 'budget': 40,
            'note': 'every method of SteadyDBConnection and SteadyDBCursor (commit, rollback, cancel, begin, close, _reset, _ping_check, _cursor, execute*, callproc, with blocks, constructor) proved from an arbitrary state of the object over a driver that may fail at any call, so the guarantees hold along every history by induction. Assumes that a closed driver connection fails every call; one thread uses a connection at a time.'},
    'C22': {'spec': ('runtime', 'C22'), 'oracle': 'runtime_o', 'budget': 40,
            'note': 'RemoteExecutor.connect_db proved: whatever two requests came in whatever order, each gets a connection of a pool opened with its own host, port, user, password and database; encrypt_sql2/decrypt_data proved: ids of two requests differ for any clock readings and decrypting by id uses what was recorded for it although tables were re-created meanwhile.'},
    'C19': {'spec': ('tokens', 'C19'), 'oracle': 'text_o', 'budget': 40,
            'note': 'Lexer.get_tokens proved by a loop contract over every text (position and characters spelled, every regular expression of the real table by its minimal width), StatementSplitter.process by an invariant (yielded + pending = read) for every stream and state, Token/TokenList flatten and str, group_tokens (spelled tokens preserved for every list and all indices, extend included), the frame of all 24 grouping functions and _group (they change a tree through group_tokens only, extending only at positions counted from the beginning), the searches, group, FilterStack.run, parse and split. Assumes re matches at the position asked for, and that tokens are not shared between groups.'},
    'C20': {'spec': ('dots', 'C20'), 'oracle': 'text_o', 'budget': 40,
            'note': 'split_field(join_field(names)) proved to be the names for every list of any length of names of any characters (control characters excluded): the real functions are executed symbolically to chains of str.replace/join/split, compared with the identity by a decision procedure on the product of their transducers; literal_field/unliteral_field likewise; concat_field, tail_field, startswith_field, relative_field proved against those contracts for lists of any length.'},
    'C23': {'spec': ('alter', 'C23'), 'oracle': 'alter_o', 'budget': 40,
            'note': 'parse_alter_key and format_alter_key executed symbolically on an arbitrary statement of each form (letter case, spacing, names of any length, quoted table, optional names) and on an arbitrary text that is none of them; what each regular expression of the source matches and captures there is decided on the product of the automata, for texts of any length. Assumes re matches exactly what its pattern describes, and the contract of escape (C18).'},
    'C24': {'spec': ('conc', 'C24'), 'oracle': 'conc_o', 'budget': 90,
            'note': 'Concurrency by contract (frame conditions and monitors): every function of the request path under contract for C01-C14, C17, C18, C21, C22 is run again on its arbitrary inputs with every store checked - it writes nothing that module or class state holds, and loops over no recorded tables live; Delta.update_delta, delete_delta, __new__ and the three parse functions are proved monitors (shared state and the store connection touched only with one lock held, one critical section per change, state before the lock arbitrary within what other requests may do, instance published after it is loaded, lock released on every error). A request decrypts and aggregates with the tables it began with, whatever another one drops or creates meanwhile, and a DROP or refused CREATE takes out only its own entry. Assumes one request per thread, single dict/list operations of the interpreter atomic, drivers and libraries thread safe. Interleavings of pairs of real requests are replayed by the oracle (bounded).'},
}
NOT_APPLICABLE = {
    'C25': "the parser is a pyparsing grammar: a graph of closures built at import time and interpreted by a backtracking engine of several thousand lines with packrat memo, exceptions as control flow and run-time generated parse actions. No contract within reach of a Python verifier states 'the tree of this text'; the parser is used by contract (its JSON shape) in C07-C12, C17 and C21 and its real behaviour is only sampled by their oracles",
}
