"writes properties.jsonl from the table below"
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech):
	P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over.split(), text=text), why_tests_cant=why,
		anchors=dict(files=['postgresql/' + f for f in files.split()], mechanism=[dict(name=n, where='postgresql/' + w) for n, w in mech])))

p('P01', 'Fixed-width binary values: integers, floats, bool, oid',
 'Every value of a fixed-width type packs to exactly the big-endian two\'s-complement (or IEEE) bytes of its width, unpacking gives the value back, and unpacking then packing any byte string of that width gives the same bytes. Values outside the type\'s range are refused instead of being silently changed.',
 'inputs', 'all integers (in and out of range), all byte strings of the width', 'Tests check a dozen boundary samples per width; the claim is for all 2**64 patterns and for every out-of-range integer.',
 'python/structlib.py types/io/lib.py types/io/builtins.py port/_optimized/structlib.c', [('mk_pack / Struct pairs', 'python/structlib.py'), ('C packers', 'port/_optimized/structlib.c'), ('oid_to_io', 'types/io/builtins.py')])
p('P02', 'Dates, times, timestamps and intervals survive the wire',
 'Converting a date, time, time with zone, timestamp, timestamp with zone or interval to the binary wire form gives the server\'s documented count of days/microseconds relative to 2000-01-01 (integer encoding), and converting back gives the same value; both directions are total on the documented range of the Python type. Time-zone offsets keep their sign and their sub-hour part, and infinities are mapped to the designated values.',
 'inputs', 'all dates of the calendar, all microseconds, all offsets, all byte strings of the wire width', 'Tests sample some dozens of dates; sign, carry and epoch arithmetic must be right for every microsecond of 9999 years.',
 'types/io/lib.py types/io/stdlib_datetime.py python/datetime.py', [('packers relative to the epoch', 'types/io/stdlib_datetime.py'), ('time/interval structs', 'types/io/lib.py'), ('FixedOffset', 'python/datetime.py')])
p('P03', 'Numeric values keep their exact decimal value',
 'Packing any finite decimal gives a base-10000 digit string with the weight, sign and display scale of the server\'s numeric format, and unpacking it gives the same value with the same number of fractional digits; NaN maps to NaN, and infinities are refused. Decoding any well-formed digit string gives exactly sum(digit * 10000**(weight - index)) with the stated sign and scale.',
 'inputs', 'all finite decimals (any number of digits and any exponent in the format\'s range) and all well-formed digit strings', 'Digit grouping depends on the exponent modulo 4 and on leading/trailing zero groups; tests sample a few combinations.',
 'types/io/stdlib_decimal.py types/io/lib.py', [('numeric_pack / numeric_unpack / convert', 'types/io/stdlib_decimal.py'), ('numeric header', 'types/io/lib.py')])
p('P04', 'Composite, array and hstore containers round trip',
 'A row, an array of any dimensionality or a key/value map packs to the documented container layout and unpacks to the same structure: element count, dimensions, lower bounds, element types and NULLs are preserved. The number of elements and dimensions on the wire always agrees with the data that follows, and a truncated or inconsistent container is refused instead of being read short.',
 'inputs', 'all rows, arrays and maps with any number of fields, any element bytes, any NULL pattern', 'Needs induction over unbounded element counts and every NULL pattern; tests use fixed small containers.',
 'types/io/lib.py types/io/builtins.py types/io/contrib_hstore.py types/__init__.py', [('record/array/hstore structs', 'types/io/lib.py'), ('array and row converters', 'types/io/builtins.py'), ('hstore factory', 'types/io/contrib_hstore.py')])
p('P05', 'Bit strings, network, geometric, uuid and text types round trip',
 'Bit strings, MAC addresses, IP addresses and networks, points, boxes, circles, line segments, uuids, json documents and text in the client encoding convert to the documented wire form and back to an equal value for every value of the type. Addresses of unknown families or of wrong lengths, MAC addresses and uuids of wrong lengths, circles of negative radius and unknown json versions are refused.',
 'inputs', 'all values of each type; all header bytes', 'Each type has its own header and padding arithmetic over an unbounded value space.',
 'types/io/lib.py types/io/pg_bitwise.py types/io/pg_network.py types/io/pg_geometry.py types/io/stdlib_uuid.py types/io/stdlib_jsonb.py types/geometry.py types/bitwise.py encodings/aliases.py driver/pq3.py', [('bit/net/geometry structs', 'types/io/lib.py'), ('converters', 'types/io/pg_bitwise.py'), ('network converters', 'types/io/pg_network.py')])
p('P06', 'Every protocol message round trips and is framed with its exact length',
 'Each protocol message serialises to the documented layout, is framed by its type byte and a four-byte length that counts itself and the payload, and parsing the payload yields an equal message, for every field content including empty and NULL fields. Concatenating messages gives the concatenation of their frames, with raw rows framed as copy data and tuples as data rows, and payloads whose inner sizes disagree are refused.',
 'inputs', 'all field contents, all numbers of arguments, parameters and columns', 'Tests serialise a few instances of each message; counts and lengths must agree for every content.',
 'protocol/element3.py protocol/version.py port/_optimized/element3.c', [('serialize/parse of each message class', 'protocol/element3.py'), ('cat_messages / pack_tuple_data', 'port/_optimized/element3.c')])
p('P07', 'Incoming bytes are reassembled into the same messages however they arrive',
 'However the byte stream from the server is cut into reads, the sequence of (type, payload) messages delivered equals the one delivered when the whole stream arrives at once, in order, with nothing lost, duplicated or invented; an incomplete message is withheld until its last byte arrives and then delivered. A length field smaller than four is reported as an error, and the count of available messages agrees with what can be read.',
 'inputs schedules histories', 'all message streams and all ways to cut them into chunks, interleaved with reads', 'The number of cuttings is exponential; tests try a few.',
 'protocol/pbuffer.py protocol/buffer.py port/_optimized/buffer.c', [('pq_message_stream', 'protocol/pbuffer.py'), ('p_buffer', 'port/_optimized/buffer.c')])
p('P08', 'Rows of fields are packed and split without loss, in Python and in C',
 'Packing a row of NULL and non-NULL fields and parsing it back gives the same fields; the compiled implementation and the Python one accept and produce the same bytes. Malformed rows (sizes beyond the data, wrong field count, trailing garbage) raise an error and never read outside the data.',
 'inputs', 'all rows, all byte strings given to the parser', 'Memory safety and agreement for every malformed row cannot be sampled.',
 'protocol/element3.py python/structlib.py port/_optimized/element3.c port/_optimized/functools.c python/functools.py', [('parse_tuple_message / pack_tuple_data', 'port/_optimized/element3.c'), ('Tuple.parse', 'protocol/element3.py'), ('process_tuple', 'python/functools.py')])
p('P09', 'COPY data is tracked across arbitrary buffer boundaries',
 'However COPY data messages are cut into buffers, the tracker recognises exactly the message boundaries of the concatenated stream, counts each complete message once, reports precisely the part still missing, and stops at the first message that is not copy data without consuming it.',
 'inputs histories', 'all streams of copy messages and all ways to cut them', 'Boundary cases inside the five-byte header appear only for particular cuttings.',
 'copyman.py port/_optimized/wirestate.c', [('WireState.update', 'copyman.py'), ('wirestate', 'port/_optimized/wirestate.c')])
p('P10', 'The query state machine accepts exactly the legal server replies',
 'For every sequence of server messages, in whatever batches they arrive, the state machine of an instruction completes exactly when the protocol says it is complete, keeps every reply in the order received (those of a batch in which the exchange fails excepted), reports an error and goes on at the next synchronisation, hands each asynchronous message over exactly once, and fails as a protocol violation when a message arrives that the current step does not allow. A batch given again is not processed twice. Messages to be sent are offered once, in order, and a copy that is fed neither data nor its end is made to fail.',
 'histories inputs', 'all sequences of reply messages for each kind of instruction', 'Reply sequences are unbounded; tests run scripted exchanges.',
 'protocol/xact3.py', [('Instruction / state tables', 'protocol/xact3.py')])
p('P11', 'Start-up negotiation authenticates correctly and never half-way',
 'During start-up the client sends a password only when the server asks for one, in the form asked (clear text, crypt, or md5 of md5(password+user)+salt), accepts the connection only after authentication succeeded and the server is ready, and turns unsupported or unexpected requests into an error instead of continuing. Parameters and notices received on the way are kept.',
 'histories configurations', 'all sequences of server messages, all users, passwords and salts', 'The order of server messages and unsupported requests are not covered by tests against a friendly server.',
 'protocol/xact3.py protocol/element3.py', [('Negotiation', 'protocol/xact3.py')])
p('P12', 'The transport delivers every byte once, across partial sends and failures',
 'The connection writes to the socket exactly the concatenation of the messages it was given, in order, whatever number of bytes each send accepts; incoming bytes reach the message buffer unchanged. End of file and socket errors, other than those that ask for another try, are reported as a failed connection and never as a completed exchange (a time-out set on the socket is raised to the caller), and no message is sent twice.',
 'schedules fault_sequences', 'all partial-send patterns, all read chunkings, a failure at any call', 'Partial sends and failures at arbitrary points do not occur with a local server.',
 'protocol/client3.py', [('Connection.standard_write_messages / send_message_data / read_into', 'protocol/client3.py')])
p('P13', 'The sslmode policy is obeyed for every server answer',
 'For sslmode disable the connection is never encrypted; for require no start-up data is sent on an unencrypted connection; prefer tries encryption first and allow tries plain first, each falling back at most once per address and never weakening the policy; modes the driver does not know, the verifying ones included, are refused before anything is sent. Any answer of the server to the encryption request leads to the documented outcome: exactly one byte of it is read in the clear, S starts the encryption, N goes on without it only where the mode permits, anything else, a failed handshake or a lost connection fails the attempt. Every connection that failed is closed, and the next address is tried.',
 'configurations fault_sequences', 'all modes, all server answers, refusals and failures at each attempt', 'Tests have no SSL server and no refusing server.',
 'driver/pq3.py protocol/client3.py clientparameters.py', [('Connection.connect / socket_factory sequence', 'driver/pq3.py'), ('negotiate_ssl', 'protocol/client3.py')])
p('P14', 'Transaction blocks and savepoints commit or roll back exactly once',
 'For every nesting of transaction contexts, leaving a block normally issues exactly the matching COMMIT or RELEASE, leaving it by an exception (an instance of Exception, on a connection still open) exactly the matching ROLLBACK, and the exception propagates; a block that failed at the server is rolled back and reported when left normally; inner blocks never end outer ones. Operations on a block in the wrong state are refused without sending SQL.',
 'programs histories', 'all sequences of start, commit, rollback, nesting and exceptions', 'The state space of nested uses is unbounded; tests need a server and try a few.',
 'driver/pq3.py', [('Transaction', 'driver/pq3.py')])
p('P15', 'Cursor reads return each row once, in order, in both directions',
 'Reading through a cursor in any mixture of read sizes, directions and seeks returns exactly the rows of the result at the positions the moves describe, without loss, duplication or reordering at chunk boundaries; a read past the end returns the rest and then nothing. A cursor reading backwards is one over the rows in reverse; relative moves are relative to the position in either direction. A result that failed part way is reported as failed and never taken as complete.',
 'histories inputs', 'all result sets, all sequences of reads and seeks', 'Chunk boundaries interact with read sizes in unboundedly many ways.',
 'driver/pq3.py python/itertools.py', [('cursor classes', 'driver/pq3.py')])
p('P16', 'SQL quoting is injective and injection-proof',
 'A quoted literal or identifier, read back by the server\'s lexical rules (standard conforming strings), denotes exactly the given text and ends exactly at its closing quote, for every text. An identifier left unquoted because it needs no quotes (reserved words aside, which the library does not know) denotes itself under case folding.',
 'inputs', 'all texts', 'An injection needs one unlucky text; tests try a few.',
 'string.py notifyman.py driver/pq3.py', [('quote_literal / quote_ident / escape', 'string.py')])
p('P17', 'Qualified names and SQL text are split only at real boundaries',
 'Splitting a dotted name respects quoting, and quoting the parts and joining them gives back an equivalent name; splitting SQL text never splits inside string literals, dollar-quoted bodies or quoted identifiers, and joining the pieces gives the original text.',
 'inputs', 'all names and SQL texts', 'Quoting forms nest and combine without bound.',
 'string.py sys.py lib', [('split_ident / split_qname / split_sql / split_using', 'string.py')])
p('P18', 'Connection IRIs parse and serialise consistently',
 'Building an IRI from connection parameters and parsing it back gives the same parameters, for every user, password, host, database, path and setting, and every port given with a host; reserved characters are escaped on the way out and restored on the way in. Parsing never puts part of one component into another.',
 'inputs', 'all component texts', 'Reserved characters in every component combination.',
 'iri.py resolved/riparse.py', [('parse / serialize', 'iri.py'), ('split / unsplit / percent escapes', 'resolved/riparse.py')])
p('P19', 'The password file selects the first matching entry',
 'Looking a password up returns the password of the first line whose host, port, database and user fields each equal the requested value or are a bare asterisk, and nothing if there is none; escaped colons and backslashes in fields and passwords are restored; lines starting with # and malformed lines are ignored.',
 'inputs', 'all files, all requests', 'Escapes, wildcards and order combine; tests use one file.',
 'pgpassfile.py clientparameters.py', [('parse / lookup_password', 'pgpassfile.py')])
p('P20', 'Editing a configuration file changes only the requested settings',
 'Applying a set of changes (values without line breaks) to a configuration file of key = value lines leaves every other line byte-for-byte unchanged, and reading the result gives the old settings updated with the changes, removed ones being commented out. Values are quoted so that reading gives back the text written.',
 'inputs histories', 'all files and all sets of changes', 'Comments, quoting, duplicates and spacing combine without bound.',
 'configfile.py', [('parse_line / write_config / alter_config / ConfigFile', 'configfile.py')])
p('P21', 'Client parameters resolve by documented precedence',
 'The effective value of each connection parameter is the one given by the source of highest precedence (explicit arguments over command line over service file over environment over defaults, PGSSLMODE over PGREQUIRESSL), settings are merged key by key, and a later source never erases a value it does not mention. Environment variables and command-line options reach exactly the parameter they name.',
 'configurations inputs', 'all combinations of sources, all values', 'Combinations of a dozen sources and options are exponential.',
 'clientparameters.py', [('normalize / collect / defaults / envvars', 'clientparameters.py')])
p('P22', 'Version strings parse, compare and print consistently',
 'Splitting a version string gives the numbers and the state it contains, formatting them gives an equivalent string, and comparison of normalised versions agrees with release order: numbers first, then the state in the order alpha, beta, candidate, final, then the number of the state.',
 'inputs', 'all versions', 'Order must hold for all pairs.',
 'versionstring.py', [('split / unsplit / normalize', 'versionstring.py')])
p('P23', 'Escaped binary text decodes to the bytes it denotes',
 'Encoding bytes in the escaped text form and decoding gives the same bytes, for every byte string; decoding accepts only backslash pairs and three-digit octal escapes of a byte, and refuses every other escape.',
 'inputs', 'all byte strings and all texts', 'Escapes at the end, adjacent escapes, out-of-range octals.',
 'encodings/bytea.py', [('encode / decode', 'encodings/bytea.py')])
p('P24', 'Bit-string arithmetic matches the bits',
 'Bit strings built from text, integers or bytes have exactly the given bits and length; concatenation, repetition, indexing, slicing, iteration, equality, truth and conversion act bit by bit as documented.',
 'inputs', 'all bit strings, all operators', 'Lengths that are not multiples of eight and all operand pairs.',
 'types/bitwise.py', [('Varbit / Bit', 'types/bitwise.py')])
p('P25', 'Advisory locks are taken and released in balance',
 'However often a lock object is acquired and released, the database locks are taken when the count leaves zero and released when it returns to zero, exactly once each and for every key, in the mode of the lock; releasing an unheld lock is refused, an acquisition refused for any key holds nothing and leaves the count as it was, and leaving the context releases what entering acquired.',
 'histories fault_sequences', 'all sequences of acquire/release/with, failures at any key', 'Sequences and failure points are unbounded and need a server.',
 'alock.py', [('ALock', 'alock.py')])
p('P26', 'Every notification is delivered once, in order',
 'Iterating over a notification manager yields every notification of every managed connection exactly once and in the order each connection received them; an idle event (None) is given only when the time-out has passed and no notification is held, never without a time-out or with one of zero; with a time-out of zero what was received before is given and the iteration ends without waiting; connections that fail are set aside without losing notifications they had received.',
 'schedules histories fault_sequences', 'all arrival orders, all readiness patterns and failures', 'Arrival schedules cannot be enumerated by tests.',
 'notifyman.py', [('NotificationManager', 'notifyman.py')])
p('P27', 'COPY streams reach every receiver whole, or fail visibly',
 'A COPY operation (CopyManager, load_rows, load_chunks, rows, chunks) that ends without an error gave every receiver still taking part exactly the rows of the producer, once and in order, and its counts of rows and bytes are those transferred. A receiver that fails is set aside and reported, keeps what it missed until it is reconciled, and the others still get everything; an operation that was left early, or whose producer, source or last receiver failed, is raised as a failure and commits nothing at its targets; interrupted streams are cut at message boundaries, so the connections remain usable, and messages received in between are delivered.',
 'histories fault_sequences', 'all row streams, buffer sizes and failures of producer or receivers', 'Failures at arbitrary points of the stream do not occur in tests.',
 'copyman.py driver/pq3.py', [('CopyManager / StatementProducer / StatementReceiver', 'copyman.py'), ('SingleXactCopy / Statement.load_chunks', 'driver/pq3.py')])
p('P28', 'Every SQLSTATE maps to the most specific error or warning class',
 'For every five-character SQLSTATE the class raised is the one registered for that code, else the one for its two-character class, else the generic error (warnings for warning classes); no code is mapped to two classes, and each exported class is reachable by its code.',
 'inputs', 'all codes', 'Totality over all 36**5 codes.',
 'exceptions.py', [('map_errors_and_warnings / code_lookup / ErrorLookup / WarningLookup', 'exceptions.py')])
p('P29', 'Column functions are applied to their own column and failures are located',
 'Processing a row applies the i-th function to the i-th non-NULL column, leaves NULLs as NULL, refuses rows of another width, and reports a failing function with the index of its column; so do the rows, chunks, columns and first rows of statements, whose failures are column errors (--CIO) carrying the position of the column and the cause; composition of functions, interleaving and chunking of iterables preserve order and content.',
 'inputs', 'all rows, function lists, iterables', 'Widths and NULL patterns are unbounded.',
 'python/functools.py python/itertools.py port/_optimized/functools.c driver/pq3.py', [('Output._process_tuple_chunk_Column, Statement.first', 'driver/pq3.py'), ('process_tuple / process_chunk', 'python/functools.py'), ('interlace / chunk', 'python/itertools.py')])
p('P30', 'Arrays and rows behave as the nested sequences they hold',
 'An array built from nested lists has the dimensions of the nesting, contains exactly its elements in row-major order, and indexing, slicing, iteration and comparison agree with the nested list; ragged nestings (lists of different sizes on one axis, or an element where a list is expected) are refused. A row gives the same value by position, by name and by iteration.',
 'inputs', 'all rectangular nestings, all indexes, all rows', 'Dimension arithmetic for all shapes and indexes.',
 'types/__init__.py', [('Array', 'types/__init__.py'), ('Row', 'types/__init__.py'), ('named tuples', 'types/namedtuple.py')])
p('P31', 'DB-API parameters are bound to their own placeholders',
 'Translating a DB-API statement with positional or named placeholders gives a statement whose parameter numbers refer to the right values, leaves literal text and quoted parts unchanged, a doubled percent sign outside quotes standing for one where there are placeholders, and refuses missing parameters.',
 'inputs', 'all statements with any mixture of text, quotes and placeholders', 'Quoting and placeholders mix without bound.',
 'driver/dbapi20.py string.py', [('percent_parameters / convert_keyword_parameters / Cursor', 'driver/dbapi20.py')])
if __name__ == '__main__':
	here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
	with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
		for x in P:
			assert len(x['title']) <= 80, x['title']
			f.write(json.dumps(x) + '\n')
