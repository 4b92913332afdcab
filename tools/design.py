D = {
'C01': ('Walks of (id, time, flags, value) with biased step sizes (repeat, ±1, small, large, jump, full range; values exact repeats, one-byte, two-byte, three-byte XOR differences and random bits incl. NaN patterns), 1–10 points, cut into buffers of generated sizes; `long`: up to 20 000 measurements.',
 'A reference TSSC encoder written in the harness (`harness/ref`) from the bit-level format, including the adaptive code tables. Decoding must return the encoded list exactly and then end. Decoder state lives across buffers.',
 'two or more buffers, or a code-table mode change',
 'the repository has no TSSC test vectors beyond one fixed stream; mode changes need hundreds of measurements with a skewed code mix.'),
'C02': ('`direct`: one measurement encoded by the harness and decoded by CompactMeasurement. `session`: compact packets over a live session with base-time updates, rotated base index, millisecond or tick resolution, both cache slots.',
 'Reference compact encoder and an own table of the eight flag groups; expected time computed from the announced base times; reported length equals the encoded length.',
 'an offset time or cache slot 1', 'base offsets need matching subscription settings and base-time messages, which no unit test sends.'),
'C03': ('Sequences of caches (up to 60 records and 5 updates, arbitrary index values, repeated IDs, Unicode sources, both GUID byte orders, compressed or not, versions 1 and 2) over a live session, lookups of present and absent entries and data through both slots after every update; `large`: up to 70 000 records, sources up to 100 000 characters.',
 'A map model of the last cache; confirmations counted on the wire.', 'two or more updates', 'needs a publisher.'),
'C04': ('Publisher histories of TSSC, compact or encrypted data mixed with cache updates, base times, cipher keys, TSSC resets, packets out of sequence, resubscription, notifications, on up to four connections of one subscriber; slices kept by the receiver are compared again at the end, start times must be reported in their place between the measurements; byte-stream segmentation; `udp`: data channel datagrams in lockstep; `wrap`: more than 65 536 TSSC packets in one session; `large`: packets up to 20 MB; `subscriber`: the same histories through the top-level Subscriber with its receivers, totals and automatic subscription.',
 'The sent list is the expected list; totals of measurements and bytes.', 'a control response between data packets', 'needs a publisher; interactions of state between packets.'),
'C05': ('Histories as in C04 with packets lost, repeated, delayed, sent before the cache or cut short; new connections in between.',
 'Model of the sequence rule: only measurements that were encoded and not skipped may be delivered; after a reset delivery must continue.', 'data delivered after a fault, or a shortened packet', 'fault sequences.'),
'C06': ('Permutations with duplicates and gaps of 1–10 numbered blocks with content up to 70 000 bytes, over one to three connections; `long`: 260 to 1500 blocks, up to 400 of them late, one of up to 5 MB.',
 'In-order exactly-once model with signal ID and content; one confirmation per first receipt.', 'an out-of-order arrival', 'needs a publisher that misorders.'),
'C07': ('Valid packets of every response type damaged in bytes or cut short, before or after compression/encryption and with the announced sizes left or adjusted, random packets, unfinished frames, on TCP and UDP.',
 'The process survives, the session ends or continues, close returns, a normal session with data works afterwards.', 'a damaged packet of a valid kind', 'input space.'),
'C08': ('1–8 goroutines sending commands of 0 to 200 000 bytes while notifications arrive that need confirmations; `large`: up to 20 MB.',
 'Frames read by an own parser: per-sender order, content, nothing else.', 'two or more senders or a payload over 32 KiB', 'schedules and sizes.'),
'C09': ('Sequences of subscribe calls with all settings, filter texts with separators and Unicode, extra parameters, some of them up to hundreds of kilobytes long.',
 'Own connection-string parser; expected pairs from the settings.', 'three or more non-default settings', 'tests check no wire bytes.'),
'C10': ('Scripts of dial/listen/disconnect/drop calls, malformed addresses and ports in use; each dial attempt outcome (refuse, accept) scripted, retry limits and intervals of a few ms up to overflow-prone values.',
 'State model. Attempts are counted at a local name server that the dialer has to ask before each attempt; huge base intervals are paired with a small maximum, so that a wait above the maximum shows as a dial that never returns. A dial must not return before the waits it owes have passed (a lower bound only, so a slow machine cannot fail it).', 'a refused attempt', 'fault sequences.'),
'C11': ('A session state (idle, dialing, waiting, connected, receiving, listening, reconnecting, closed) × 1–3 concurrent close/disconnect actors × callbacks that disconnect.',
 'Completion, state flags, peer sees end of stream, data port closed, callbacks counted, no traffic afterwards.', 'not idle', 'schedules.'),
'C12': ('Up to 4 drops at generated points of a session, refusals in between, all start-up flags; `limit`: 1 to 5 retries with drops, sessions refused by the publisher and failed attempts. A fifth of the cases use retry intervals of up to 20 ms.', 'The configured start-up sequence must appear on every connection with the same subscription; data flows; without automatic reconnection nothing follows; with a limit, no more attempts than it leaves, counted at the name server, a reconnection does not come before the waits it owes (a lower bound only), and a later dial works, after which turning reconnection off ends the attempts.', 'reconnected after two or more drops', 'fault sequences.'),
'C13': ('Histories of peers that connect, compete, send data, drop, or speak something else, a third of them after a publisher was dialed with reconnection on.', 'Exclusion model; the dialed publisher is not dialed again.', 'two or more sessions served', 'histories.'),
'C14': ('Configurations of versions, compression, automation flags and metadata filters, and the default one × up to 10 steps of responses with generated content, the first answer up to the 8192 bytes accepted before validation; `large`: metadata up to 20 MB, texts and filters up to 90 KB.', 'Contract table: expected commands, callbacks with content, state.', 'three or more steps after start-up', 'only constructors are tested.'),
'C15': ('Metadata documents over several connections while other goroutines look signals up; documents without the table, the signal column or a schema, or cut short, columns in any order; `large`: up to 3000 rows; `race`: goroutines released together on fresh IDs.', 'Field model; pointer identity per connection.', 'a listed signal and a concurrent looker', 'schedules.'),
'C16': ('Interleavings of reads, cancellations, data and an end action; `large`: packets of up to 3000 measurements, up to 300 reads.', 'The sent list; completion.', 'unread data at the end, or all drained', 'schedules.'),
'C17': ('Data sets over all column types written as XML in equivalent forms (prefixes, entity or CDATA text, offset dates, padded numbers, Singles told from their neighbours only by a late digit, default namespace), computed columns, extended attributes of another namespace, definitions without name or type, flawed schemas, some damaged; documents loaded repeatedly; `large`: up to 3000 rows, 100 columns, 40 tables, texts of 100 000 characters; `types`: XSD type names.', 'The generated values; flawed schemas are rejected without a table; damaged documents only have to be survived.', 'three or more values', 'tests load two fixed documents.'),
'C18': ('`pairs`: one operator over any two operand types; `trees`: up to depth 5, with IN lists of up to 120 entries and LIKE on texts of up to 2000 characters; random spellings (symbols/keywords, case, parentheses); `chains`: unparenthesised operands.',
 'Independent evaluator in `expr_test.go` with its own promotion table, big-integer and decimal arithmetic and LIKE matcher.', 'the reference gives a definite value or error', 'operator × type × type × value space.'),
'C19': ('Every function over boundary arguments, including characters whose upper case form has another length, texts that are not valid UTF-8, long texts, up to 60 arguments, and in a quarter of the cases nulls; `nested`: trees of functions and operators; `clock`: Now and UtcNow (a time within a day and a half of the check; the exact value is not decided).', 'Independent definitions in `exprfn_test.go`.', 'a definite value or error', 'argument space.'),
'C20': ('Trees over rows with null columns and NULL literals; `select`: conditions over up to 8 rows.', 'The same evaluator with three-valued logic; rows selected only when definitely true.', 'a definite value; for `select`, a null condition', 'null × position space.'),
'C21': ('Up to 7 statements with up to 6 ordering terms, conditions and identifiers over two tables of up to 25 rows (`large`: 3000 rows) with ties, nulls, case variants; rows, row sets, signals of a parser evaluated twice, and Select with limit and sort, and SelectWhere with predicates; `compare`: two rows of one or two tables by every column, one of them computed; `setup`: parsers that lack a data set, tables, the primary table or its fields, which are supplied afterwards.',
 'Naive select, stable comparison of ordering keys, union.', 'several rows from a query with order or limit', 'query × table space.'),
'C22': ('`texts`: random, token soup, mutated; `invalid`: invalid by construction; `spellings`/`queries`: two spellings of one expression.', 'No crash, no hang, same outcome twice, data unchanged, errors for invalid text, equality of the spellings.', 'see rules in the evidence', 'input space.'),
'C23': ('Rows of up to 12 columns through every typed accessor by index and by name in any case; computed columns over 30 plain columns and each other, and over texts of whole numbers at the bounds of each integer type; loops of computed columns.', 'Stored value; independent evaluator with conversion table.', 'always / a computed column with a definite value', 'type × accessor × conversion space.'),
'C24': ('Up to eight operations on two sets over six elements, with duplicate arguments; `large`: every element stands for up to 2000.', 'Map model.', 'an argument with duplicates', 'tests use few fixed sets.'),
'C25': ('GUIDs, relatives differing in one byte, malformed texts.', 'Own formatter, parser, byte orders.', 'two different GUIDs', 'value space.'),
'C26': ('Ticks over years 1–9999 biased to boundaries, leap markings, zones.', 'Own calendar arithmetic.', 'before 1970 or marked', 'value space.'),
'C27': ('Element trees up to four levels in equivalent spellings (`large`: 300 levels, 3000 elements in one, 100 attributes, texts of 100 000 characters); paths drawn along them with predicates; malformed paths; some documents loaded from a file in a scratch directory.', 'Own tree and path evaluator.', 'a path of two steps or with a predicate selects a node', 'tree × path space.'),
'C28': ('Operation sequences on data sets, tables, columns (some computed) and rows (some missing) with colliding names; `large`: up to 140 tables, hundreds of columns, thousands of rows.', 'Model.', 'a table replaced or a name repeated', 'histories.'),
'C29': ('`race`: calls from several goroutines; `gate`: the function held open by channels.', 'Run counter, completion flag.', 'two or more runs with several workers', 'schedules.'),
'C30': ('References, kinds, flags, codes, numbers, precisions including the shortest exact one; `codes`: every protocol enumeration with any code.', 'Own formatting and parsing; table of the protocol\'s codes.', 'several flags and a float with groups and decimals', 'value space.'),
'C31': ('Assignments of receivers and loggers before, during and from within receivers and from other goroutines, and events of every kind.', 'The receiver assigned last sees each later event, no other does; nothing blocks.', 'an assignment during the session', 'histories and schedules.'),
'C32': ('`parsed`: 1-4 statements (expressions, FILTER on two tables with limit and ordering, GUIDs) in random spellings; `built`: trees from the public constructors over up to 6 rows; `values`: values and nulls of every type.', 'The generated tree, compared node by node before and after evaluation; the reference evaluator and conversion table of C18.', 'an expression of three (`parsed`) or two (`built`) nodes, a value that is not null', 'tree space; the public tree API is not tested.'),
'C33': ('Data sets of up to 4 tables, 5 columns, 5 rows (`large`: 300 columns or 1500 rows); enumeration codes 0-45; measurements with any value and flags.', 'Own rendering; the number in the text must denote the value to half of its last place.', 'the table has rows', 'value space; no test looks at the texts.'),
'C34': ('Up to 3 sessions dialed by name or address (IPv6 too where the machine has it), accepted, or connected without a Subscriber, then dropped; up to 5 messages from each of up to 4 goroutines, with line breaks, format verbs and non-ASCII text; the standard streams of the test process are pipes meanwhile.', 'The address dialed; every message found once, whole, in the right stream, in the order of its goroutine; lines that name the connection.', 'messages logged or several sessions', 'no test opens a connection.'),
'C35': ('`args`: argument lists of 0 to 3 entries with ports that are empty, signed, padded, fractional, hexadecimal, out of range or random text. `session`: 8 of the example programs at a time as child processes, dialed or dialing, with up to 2 dropped or reset connections, data of up to 4 signals, up to 12 key presses, a quiet time before the end, ended by a key or by the end of their input.', 'Exit status and the port named; the filter expression the publisher receives at each connection and key press; lines on the standard streams for connections and first data; the shown measurement is one of those published; exit status 0 at the end. The programs show a measurement every 5 seconds, which the check waits for without judging the time. AdvancedSubscribe and AdvancedSubscribeReverse do not compile at the pinned commit and are not covered.', 'a port that differs from the host; all programs ran to their end', 'the examples have no tests.'),
}
import json,re,glob,subprocess
titles={}
for l in open('/verif/properties.jsonl'):
    p=json.loads(l); titles[p['id']]=p['title']
cases={}
for f in sorted(glob.glob('/verif/harness/props/c*_test.go')):
    t=open(f).read()
    for m in re.finditer(r'ID:\s*"(C\d\d)",\s*Name:\s*"(\w+)".*?Quick:\s*(\d+),\s*Deep:\s*(\d+)',t,re.S):
        cases.setdefault(m[1],[]).append((m[2],m[3],m[4]))
cost={}
for i in titles:
    try: cost[i]=json.load(open('/verif/evidence/%s.json'%i))['wall_s']
    except Exception: cost[i]=None
head=open('/verif/tools/design-head.md').read(); tail=open('/verif/tools/design-tail.md').read()
out=[head.rstrip(),'','## Per property','']
for i in sorted(titles):
    g,o,n,w=D[i]
    out.append('### %s %s'%(i,titles[i])); out.append('')
    out.append('- Generated: '+g)
    out.append('- Oracle: '+o)
    out.append('- Non-trivial: '+n+'.')
    out.append('- Cases (quick / thorough): '+', '.join('%s %s / %s'%c for c in cases.get(i,[]))+('; quick run about %d s alone on 8 cores.'%round(cost[i]+0.5) if cost[i] else '.'))
    out.append('- Beyond the tests: '+w)
    out.append('')
try: tail+=open('/verif/tools/design-seeded.md').read()
except OSError: pass
out.append(tail.rstrip()); out.append('')
open('/verif/DESIGN.md','w').write('\n'.join(out))
