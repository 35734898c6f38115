#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of the property list)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": list(over), "text": qtext},
              "why_tests_cant": why,
              "anchors": {"files": list(files), "state": [dict(name=a, meaning=b, where=c) for a, b, c in state],
                          "mechanism": [dict(name=a, where=b) for a, b in mech],
                          "observe_at": list(observe), "hook_needed": None}})

prop("C01", "Order-preserving encryption is strictly increasing",
     "For every key and every input/output range, if two integers a < b both lie in the input range and both encrypt, then the order-preserving ciphertext of a is strictly smaller than that of b, and both lie in the output range. Encryption is a function: the same key and integer always give the same ciphertext. An integer outside the input range is refused with an error.",
     ["inputs", "configurations"], "every key, every pair of integers, every pair of ranges with |in| <= |out|",
     "No test runs the OPE module at all; the claim relates pairs of inputs through ~64 levels of recursion with pseudo-random splits, so any finite sample says nothing about other keys or values.",
     ["scheduler/crypto/ope/ope.py", "scheduler/crypto/ope/stat.py", "scheduler/crypto/ope/util.py", "scheduler/crypto/ope/hgd.py", "scheduler/crypto/encrypt.py"],
     [("recursive range splitting", "ope.py OPE.encrypt_recursive"), ("hypergeometric split point", "stat.py sample_hgd"), ("uniform leaf choice", "stat.py sample_uniform"), ("integer-only front end", "encrypt.py OPECipher.encrypt")],
     observe=["OPE.encrypt", "OPECipher.encrypt"])
prop("C02", "Order-preserving decryption inverts encryption and rejects other values",
     "For every key and ranges, decrypting the order-preserving ciphertext of an integer gives that integer back. If decryption of a number returns a plaintext, then encrypting that plaintext gives exactly that number; any other number is refused with an error.",
     ["inputs", "configurations"], "every key, every plaintext, every candidate ciphertext",
     "No test decrypts an OPE ciphertext; encryption and decryption are two separately written recursions that must take the same branch at every level for every key.",
     ["scheduler/crypto/ope/ope.py", "scheduler/crypto/ope/stat.py", "scheduler/crypto/encrypt.py"],
     [("mirror recursion", "ope.py OPE.decrypt_recursive"), ("leaf equality test", "ope.py OPE.decrypt_recursive"), ("coins derived from key and data only", "ope.py OPE.tape_gen")],
     observe=["OPE.decrypt", "OPECipher.decrypt"])
prop("C03", "Numeric column encoding round-trips and keeps order",
     "For int, float and double columns the number that is encrypted (the encoded value) decodes to the value that was stored: exactly for int, within 10^-12 for float, and for double (|v| < 10^65) within 10^-12 (plus ordinary rounding of a double) up to 10^15 and within the resolution of the documented piecewise-linear compression above that; signs included. Encoding never reverses order: for two numbers given in the same form (both integers or both decimals) a <= b implies encode(a) <= encode(b). Values of other column types pass through both directions unchanged.",
     ["inputs"], "every numeric value of the three numeric column types",
     "No test calls the encoders; the two directions are separate piecewise functions over 130 orders of magnitude whose agreement at every point and sign cannot be sampled.",
     ["scheduler/crypto/encrypt.py"],
     [("scaling", "encrypt.py encode / decode"), ("piecewise linear compression", "encrypt.py stretch / inverse_stretch")],
     observe=["encode", "decode"])
prop("C04", "Text ciphers decrypt to the original text and support equality",
     "For every key and text, the symmetric, SM4, byte-string and CBC ciphers decrypt what they encrypted to exactly the original content, whatever its length or characters (block-aligned lengths, empty and non-ASCII text included; a trailing NUL character is a known finding for the zero-padded ciphers). For the symmetric cipher used on columns the ciphertext is a function of key and text, and two different texts never share a ciphertext, so equality comparison on ciphertexts is equality on plaintexts.",
     ["inputs"], "every key, every text and byte string",
     "No test encrypts anything; padding is correct or wrong depending on length modulo the block size, byte-versus-character length and last characters, for unboundedly many inputs.",
     ["scheduler/crypto/encrypt.py"],
     [("zero padding and its removal", "encrypt.py AESCipher.pad / unpad"), ("length-byte padding", "encrypt.py module-level pad / unpad"), ("PKCS7", "encrypt.py AESCrypto.pkcs7_padding / pkcs7_unpadding"), ("base64/hex transport", "encrypt.py AESCipher, SM4CipherBytes")],
     observe=["AESCipher", "SM4CipherBytes", "AESCipherBytes", "AESCrypto"])
prop("C05", "Fuzzy search never misses a matching alphanumeric value",
     "For every key, if a search word of at least three characters occurs inside a stored value, and both consist only of letters and digits, then the fuzzy ciphertext of the word occurs inside the fuzzy ciphertext of the value, so LIKE '%word%' on the fuzzy column returns the row. A LIKE pattern is translated piece by piece: each text between '%' signs is replaced by its fuzzy ciphertext, the '%' signs keep their number and places, and a piece shorter than three characters is refused ('_' wildcards are not covered).",
     ["inputs"], "every key, stored value, search word and LIKE pattern",
     "No test covers fuzzy encryption or LIKE rewriting; the guarantee is about every substring of every value.",
     ["scheduler/crypto/encrypt.py", "scheduler/handers/clause/sql_where.py"],
     [("sliding-window token encryption", "encrypt.py FuzzyCipher.encrypt"), ("pattern splitting on %", "sql_where.py SQLWhere.rewrite fuzzy branch")],
     observe=["FuzzyCipher.encrypt", "SQLWhere.rewrite"])
prop("C06", "Homomorphic ciphertexts, SUM and AVG decrypt to the true numbers",
     "For every Paillier key and list of integers within the key's capacity, a single homomorphic ciphertext decrypts to its integer, a SUM result over ciphertexts decrypts to the exact sum, and an AVG result decrypts to sum divided by the number of rows, negative numbers included. The server-side aggregation is always driven with the modulus n^2 of the key of the column being aggregated.",
     ["inputs", "configurations"], "every key pair, every list of integers, every single-/multi-row aggregate form",
     "No test touches homomorphic columns; correctness ranges over all keys, all multisets of values and several result encodings.",
     ["scheduler/crypto/encrypt.py", "scheduler/schema/metadata.py"],
     [("ciphertext product modulo n^2", "encrypt.py HomomorphicCipher.decrypt"), ("result-form dispatch (SUM/AVG/count)", "encrypt.py HomomorphicCipher.decrypt"), ("modulus given to the database", "metadata.py Delta.get_paillier_procedure_info / set_sum_feature")],
     observe=["HomomorphicCipher.encrypt", "HomomorphicCipher.decrypt"])
prop("C07", "INSERT stores every encrypted column only as its own ciphertexts",
     "A rewritten INSERT (one row or several) lists, in column order, each plaintext column under its own name with its value unchanged and each encrypted column as exactly its physical cipher columns, and the values of each row line up with that column list position by position. Every value given for an encrypted column appears only as the ciphertext of the encoded value under that column's own key and that position's cipher, never in the clear; NULL stays NULL in every physical column. What cannot be stored that way is refused.",
     ["inputs", "configurations"], "every table definition (any mix of plaintext and encrypted columns and ciphers) and every row",
     "No test rewrites a statement; alignment and confidentiality must hold for every schema and row, in particular combinations of ciphers no sample covers.",
     ["scheduler/handers/clause/sql_values.py", "scheduler/handers/clause/sql_columns.py", "scheduler/handers/rewrite_hander.py"],
     [("column expansion", "sql_columns.py SQLColumns.rewrite"), ("value encryption", "sql_values.py SQLValues.rewrite / encrypt_value"), ("clause dispatch", "rewrite_hander.py Rewriter.rewrite_query")],
     observe=["Rewriter.rewrite_query on INSERT"])
prop("C08", "UPDATE writes every cipher of an encrypted column and no plaintext",
     "A rewritten UPDATE assigns each plaintext column its given value, and for each encrypted column assigns every one of that column's physical cipher columns (and nothing else) the ciphertext, under that column's key and that cipher, of the same encoded value an INSERT would store. The given value of an encrypted column is never forwarded in the clear.",
     ["inputs", "configurations"], "every table definition and every SET list",
     "No test rewrites an UPDATE; a cipher left stale or written in the clear shows up only for particular cipher/type combinations and only in later queries.",
     ["scheduler/handers/clause/sql_set.py", "scheduler/handers/clause/sql_where.py", "scheduler/handers/clause/sql_values.py"],
     [("SET rewriting", "sql_set.py SQLSet.rewrite")],
     observe=["Rewriter.rewrite_query on UPDATE"])
prop("C09", "WHERE conditions on encrypted columns become the right ciphertext test",
     "In a rewritten single-table WHERE clause (columns named without a table prefix) every comparison on an encrypted column uses a physical cipher column able to decide it (equality: symmetric; <, <=, >, >= on int: order-preserving; LIKE: fuzzy) with the literal encrypted by that same cipher under that column's key, and conditions on plaintext columns and the AND/OR structure are unchanged. No condition on an encrypted column is ever forwarded with its literal in the clear; what cannot be expressed is refused.",
     ["inputs", "programs", "configurations"], "every condition tree and every table definition",
     "No test rewrites a WHERE clause; the condition tree is unbounded and one wrong case leaks a literal or silently changes the selected rows.",
     ["scheduler/handers/clause/sql_where.py", "scheduler/utils/keywords.py"],
     [("recursive condition rewriting", "sql_where.py SQLWhere.rewrite"), ("logical connectives", "scheduler/utils/keywords.py Logical_Operation")],
     observe=["SQLWhere.rewrite", "Rewriter.rewrite_query"])
prop("C10", "SELECT rewriting keeps output positions, names, types and ciphers in step",
     "For a rewritten single-table SELECT list of *, plain column names, and COUNT, MIN, MAX, SUM or AVG of a plain column, with or without alias, the i-th expression sent to the database, the i-th reported column name, the i-th reported type and the i-th recorded decryption state all belong to the i-th requested item, '*' standing for all columns in definition order. Each encrypted column is read from its own physical column of the recorded cipher (symmetric when plain, order-preserving under MIN/MAX, arithmetic under SUM/AVG; a COUNT is recorded as plaintext), and plaintext columns are read by name.",
     ["inputs", "programs", "configurations"], "every select list and every table definition",
     "No test rewrites a SELECT; a shift by one position mis-decrypts every later column and depends on the mix of items.",
     ["scheduler/handers/clause/sql_select.py", "scheduler/handers/clause/utils.py"],
     [("select item rewriting with parallel bookkeeping lists", "sql_select.py SQLSelect.rewrite")],
     state=[("select_columns/select_types/select_state", "parallel per-output-column bookkeeping", "SQLSelect")],
     observe=["SQLSelect.rewrite", "Rewriter.rewrite_query"])
prop("C11", "Query results come back row for row and column for column, decrypted",
     "Decrypting a result set returns the same number of rows in the same order, each with one cell per selected column in order: a cell recorded as plaintext is passed through (DECIMAL becomes the nearest number, timestamps become 'YYYY-MM-DD HH:MM:SS' text), NULL stays NULL, and every other cell is decrypted with the recorded cipher under the key of exactly its own column and decoded by that column's type. This holds for direct execution and for results decrypted later by query id.",
     ["inputs", "configurations"], "every result set, column mix and table definition",
     "No test decrypts a result; row counts, column mixes, NULLs and types combine without bound.",
     ["scheduler/handers/decrypt_handler.py", "scheduler/handers/clause/utils.py", "scheduler/backend/executors/decrypt_executor.py"],
     [("row/column decryption", "decrypt_handler.py DecryptHandler.decrypt / decrypt1 / __decrypt__")],
     observe=["DecryptHandler.decrypt", "DecryptHandler.decrypt1"])
prop("C12", "CREATE TABLE hides encrypted columns and agrees with the metadata it records",
     "For every table definition and encryption choice, the DDL sent to the database and the metadata recorded for the table describe the same physical columns: each plaintext column appears under its own name and type, each encrypted column appears only as one distinct anonymous physical column per cipher it was configured with, all under an anonymous table name, and the recorded type and keys are those given. A ciphertext column for char(n)/varchar(n) is wide enough for the ciphertext of any value of n single-byte characters.",
     ["inputs", "configurations"], "every list of column definitions and every encryption configuration; every declared length n",
     "No test creates an encrypted table; agreement must hold for every combination of types, ciphers, constraints and lengths.",
     ["scheduler/handers/table.py", "scheduler/schema/metadata.py"],
     [("DDL generation", "table.py rewrite_table"), ("constraint translation", "table.py get_constraint_key / get_enc_columns / get_reference_phrase"), ("ciphertext width", "metadata.py get_type_and_len / element_type")],
     observe=["Rewriter.rewrite_query on CREATE TABLE"])
prop("C13", "Encryption metadata survives a restart and changes only where asked",
     "Reloading the metadata store rebuilds exactly the database/table/column metadata (physical names, ciphers, types, keys) that was recorded (a tuple may come back as a list). Recording a table leaves the metadata of every other table and database untouched, and deleting a table removes exactly that table's entry from memory and from the store, whatever characters the names contain.",
     ["inputs", "histories"], "every metadata content, every sequence of table creations and deletions",
     "No test uses the metadata store; losing or mixing an entry loses the only copy of keys and depends on the history of tables and databases.",
     ["scheduler/schema/metadata.py"],
     [("flattening to one row per column", "metadata.py Delta.update_db_meta"), ("rebuild", "metadata.py Delta.load_delta"), ("removal", "metadata.py Delta.delete_delta")],
     state=[("Delta.meta", "db -> table -> {anonymous, columns}", "metadata.py")],
     observe=["Delta.meta", "p_db_meta rows"])
prop("C14", "A failed statement is reported and never desynchronises metadata",
     "If the database rejects a statement, the caller gets an error rather than an empty success. Table metadata is dropped exactly when a DROP succeeded or a CREATE failed: a rejected DROP keeps the table's keys, a rejected CREATE leaves no entry. A data-changing statement that succeeds is committed, and a SELECT returns exactly the rows the database returned.",
     ["inputs", "fault_sequences"], "every statement kind, with every backend call able to fail",
     "The tests never reach the executor (it needs MySQL); the claim is about what happens at each possible failure point.",
     ["scheduler/backend/executors/remote_executor.py"],
     [("execute/commit/metadata ordering", "remote_executor.py RemoteExecutor.call")],
     observe=["RemoteExecutor.call", "Delta.delete_delta"])
prop("C15", "The connection pool respects its limits and never double-lends",
     "At every moment, whatever sequence of opens, closes and failures, the number of connections in use never exceeds maxconnections (when set) nor goes negative, the idle cache never exceeds maxcached (when set), and a connection lent exclusively is lent to nobody else and is not in the idle cache; a shared connection gets no further borrower while a transaction opened with begin() is running on it. A returned connection is rolled back before anyone reuses it (with reset disabled: when a begin() is still open), and closing a lent connection twice returns it only once. Each lent connection is used by one thread at a time.",
     ["histories", "schedules", "fault_sequences", "configurations"], "every pool configuration, every interleaving of critical sections, every sequence of open/close and failing connects",
     "The one pool test needs MySQL and does not run; counters and caches must be right after every history and at every lock release.",
     ["dbutils/pooled_db.py"],
     [("monitor under one condition variable", "pooled_db.py PooledDB.connection / cache / unshare / close"), ("returning proxies", "pooled_db.py PooledDedicatedDBConnection.close / PooledSharedDBConnection.close")],
     state=[("_connections", "connections in use", "PooledDB"), ("_idle_cache", "idle connections", "PooledDB"), ("_shared_cache", "shared connections", "PooledDB")],
     observe=["PooledDB.connection", "PooledDB.cache", "PooledDB.unshare", "PooledDB.close"])
prop("C16", "A steady connection never silently reconnects inside a transaction",
     "While a transaction started with begin() is open, no lost connection is transparently replaced: the error reaches the caller, so statements of one transaction are never split over two sessions. Outside a transaction a failed cursor or commit is retried only on a fresh connection, commit and rollback always end the transaction state, and a connection that was closed or replaced is closed at the driver and not used again.",
     ["histories", "fault_sequences"], "every sequence of begin/commit/rollback/cursor/ping calls with every failure pattern of the driver",
     "No test exercises the module; the guarantee concerns failure points inside arbitrary call histories.",
     ["dbutils/steady_db.py"],
     [("transaction flag and hardened calls", "steady_db.py SteadyDBConnection begin/commit/rollback/_ping_check/_cursor")],
     state=[("_transaction", "a begin() without commit/rollback", "SteadyDBConnection")],
     observe=["SteadyDBConnection"])
prop("C17", "SQL text generation keeps the structure of expressions",
     "Formatting a parsed expression over + - * / % & |, comparisons, LIKE, IN, BETWEEN, IS NULL, AND, OR and NOT inserts every parenthesis needed so that MySQL (and this parser) reads the text back as the same expression tree (up to flattening of associative chains): no operand moves across an operator boundary because of precedence or associativity. Every clause of a parsed SELECT, INSERT, UPDATE, DELETE or DROP statement of MySQL (joins, grouping, ordering, limits, set operations, subqueries, windows, CASE, CAST) is written once, in its place, with its own content: parsing a statement and writing it again gives a statement with the same clauses, operands and values.",
     ["programs"], "every expression tree over the binary operators, at any depth and operand position",
     "The 20 parser tests compare a handful of parse results and one or two formatted strings; operator nesting is an unbounded tree.",
     ["sql_parsing/formatting.py", "sql_parsing/keywords.py"],
     [("precedence-driven parenthesising", "formatting.py Operator / Formatter.op / dispatch"), ("precedence table", "keywords.py precedence")],
     observe=["format(parse(sql))"])
prop("C18", "Literals and identifiers survive SQL text generation",
     "A string literal put into generated SQL is read back by MySQL and by this parser as exactly the same characters and can never end early or spill into the statement, quotes, backslashes and line breaks included (NUL excepted); numbers are written as they are. Every identifier that needs quoting in a statement sent to MySQL (it is no plain word, or a word reserved by this parser) is quoted as an identifier with its quote character doubled, and dotted names are quoted part by part.",
     ["inputs"], "every string value and every identifier",
     "The tests format a few harmless literals; escaping must be right for all strings.",
     ["sql_parsing/formatting.py", "sql_parsing/utils.py", "scheduler/handers/rewrite_hander.py"],
     [("literal escaping", "formatting.py Formatter._literal"), ("identifier escaping", "formatting.py escape / should_quote"), ("literal reading", "utils.py unquote / to_string")],
     observe=["format", "Rewriter.rewrite_query output"])
prop("C19", "Tokenising and splitting SQL loses and invents nothing",
     "For every SQL text, concatenating the token values produced by the tokenizer gives back exactly the text, whatever characters it contains, and splitting a token stream into statements keeps every token exactly once and in order (only whitespace after the last statement may be dropped). Grouping tokens into a tree keeps the flattened text unchanged.",
     ["inputs"], "every text",
     "The test tokenises two or three statements; losslessness is a claim about every string, including unterminated quotes and unknown characters.",
     ["scheduler/compile/parse/lexer.py", "scheduler/compile/parse/engine/statement_splitter.py", "scheduler/compile/parse/sql.py", "scheduler/compile/parse/utils.py"],
     [("regex tokenizer with error fallback", "lexer.py Lexer.get_tokens"), ("statement splitter", "statement_splitter.py StatementSplitter.process"), ("in-place grouping", "sql.py TokenList.group_tokens")],
     observe=["parse.sql tokens", "parse.split"])
prop("C20", "Dotted field paths split and join without loss",
     "Joining a list of non-empty field names without control characters (each possibly containing dots and backslashes) into a path and splitting it again gives the same list; steps up, written -1 before the names, are kept. A literal-escaped name is a path of that one name and un-escapes to it. The path helpers agree with the operations on lists of names: concatenation appends (each step up removes a name), tail is the first name and the path of the others, starts-with is list prefix, and the relative path is what has to be concatenated to the parent to get the field.",
     ["inputs"], "every path and every list of names",
     "No test exercises the path helpers; escaping bugs appear only for names with dots or escape characters.",
     ["dots/__init__.py"],
     [("path escaping", "dots/__init__.py literal_field / split_field / join_field / concat_field / tail_field")],
     observe=["split_field", "join_field"])
prop("C21", "ORDER BY sorts by the same column in the same direction",
     "A rewritten single-key ORDER BY keeps the requested direction and sorts by the requested column itself when it is plaintext, or by that column's order-preserving physical column when it is encrypted; a column that has no such physical column is refused.",
     ["inputs", "configurations"], "every table definition, column and direction",
     "No test rewrites ORDER BY; the wrong direction or cipher only shows on encrypted data.",
     ["scheduler/handers/clause/function.py", "sql_parsing/formatting.py"],
     [("order key rewriting", "function.py OrderBy.rewrite"), ("order text", "formatting.py Formatter.orderby")],
     observe=["Rewriter.rewrite_query with ORDER BY"])
prop("C22", "Requests never share credentials' connections or decryption contexts",
     "A request is only ever served on a connection opened with exactly its own host, port, database, user and password. Every encrypt-for-proxy request gets a query id of its own, and decrypting with an id uses exactly the columns, states, table and metadata recorded for that id, however many requests were made meanwhile and however fast.",
     ["histories", "inputs"], "every sequence of requests with any connection parameters and any timing",
     "No test reaches the executors; collisions need particular parameter pairs or two requests in the same clock tick.",
     ["scheduler/backend/executors/remote_executor.py", "scheduler/backend/execution_context.py"],
     [("pool lookup by connection parameters", "remote_executor.py RemoteExecutor.connect_db"), ("query id allocation", "execution_context.py encrypt_sql2 / decrypt_data")],
     state=[("connection_pool", "pools by key", "remote_executor.py"), ("id_sql_map", "decrypt contexts by query id", "execution_context.py")],
     observe=["RemoteExecutor.connect_db", "encrypt_sql2", "decrypt_data"])
prop("C23", "ALTER TABLE key and index statements keep their meaning",
     "Each supported ALTER TABLE key/index statement (ADD PRIMARY KEY, ADD CONSTRAINT [name] FOREIGN KEY ... REFERENCES, ADD INDEX/UNIQUE/FULLTEXT [name] on one column, DROP PRIMARY KEY, DROP FOREIGN KEY, DROP INDEX; any letter case and spacing, the table bare or in back quotes) is recognised and, written back, names the same table, constraint or index, referenced table and columns and performs the same operation; statements of any other form are not recognised as one.",
     ["inputs"], "every ALTER TABLE text",
     "No test covers ALTER; recognition is by large regular expressions over arbitrary text.",
     ["sql_parsing/__init__.py"],
     [("regex recognition", "sql_parsing/__init__.py parse_alter_key"), ("writing back", "sql_parsing/__init__.py format_alter_key")],
     observe=["parse_alter_key", "format_alter_key"])
prop("C24", "Concurrent requests do not disturb each other's rewriting",
     "When several requests are rewritten, executed and decrypted at the same time by threads of the process (one request per thread; the functions of scheduler and sql_parsing), the outcome is one of running them one after another: nothing of one request is used for another, no table that one of them records or drops is lost or partly seen by the others, in memory or in the metadata store, and a request that reads meanwhile does not fail because of it.",
     ["schedules"], "every interleaving of concurrent requests",
     "Tests are single threaded and never start the server.",
     ["scheduler/schema/metadata.py", "scheduler/handers/rewrite_hander.py", "scheduler/backend/executors/remote_executor.py", "sql_parsing/__init__.py"],
     [("lock of the shared metadata and its store", "metadata.py meta_lock, Delta.update_delta, delete_delta, __new__"), ("lock of the parser", "sql_parsing/__init__.py parse, parse_mysql"),
      ("state of a request kept with the request", "rewrite_hander.py Rewriter, remote_executor.py RemoteExecutor")],
     state=[("Delta.meta", "recorded tables by database and name", "metadata.py")],
     observe=["execution_context.invoke", "encrypt_sql2", "decrypt_data", "Delta.meta", "p_db_meta"])
prop("C25", "The SQL parser accepts a statement with exactly its meaning",
     "Parsing any statement of the supported MySQL subset yields the tree of that statement, and a text outside the subset is rejected rather than read as something else.",
     ["programs"], "every SQL text",
     "The tests parse about twenty statements; the grammar is unbounded.",
     ["sql_parsing/sql_parser.py", "parsing/core.py", "scheduler/lex_module/lacquer/parsers/parser.py"],
     [("packrat combinator grammar", "sql_parser.py")],
     observe=["parse_mysql"])
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + '\n')
