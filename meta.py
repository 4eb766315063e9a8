"""The properties: text for properties.jsonl, MANIFEST.json and DESIGN.md (gen.py writes all three)."""

PROPS = []
NA = []


def prop(id, title, statement, over, qtext, why, files, mech, technique, note, design):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                      technique=technique, note=note, design=design))


def na(id, title, statement, over, qtext, why, files, mech, reason):
    NA.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, reason=reason))


V = 'src/modem/vara.rs'

prop('C01', 'Commands reach the TNC as exactly their VARA protocol line',
     'Every command a caller issues (CONNECT with direct, one- or two-digipeater paths, DISCONNECT, ABORT, MYCALL with any number of callsigns, LISTEN, COMPRESSION, BW) is sent on the control connection as exactly its VARA text line: the right keyword, the caller\'s arguments unchanged and in order separated by single spaces, and one trailing carriage return. Nothing else is ever written to the control connection, and no command is sent in part, merged with another or sent twice.',
     ['inputs', 'histories'], 'every command value (all enum combinations, all callsigns, all lengths of callsign lists) and every history of earlier commands',
     'The tests never run the modem task and render none of the commands; correctness quantifies over all argument values and all command sequences (the buffer is reused).',
     [V], [('Display for Command and its payload types', V), ('manage_modem_thread command arm', V)],
     'abstract interpretation of the modem task; value-numbered byte-string comparison at each socket write',
     'Holds for all inputs under the trusted library semantics; write_all is trusted to send all bytes.',
     'The modem task that the builder spawns is interpreted abstractly (all calls inlined, coroutine states included, loops to a fixpoint). At every write on the control socket the byte string handed over is a term over the command taken from the queue; under the branch facts of that program point it must be the very term the protocol prescribes. Formatting loops are put in closed form (fold over the list).')

M = 'src/main.rs'
K = 'src/rig/elecraft/kx3.rs'
AI = 'abstract interpretation of the spawned task'

prop('C03', 'Exactly the TNC\'s response lines are recognised, whole, with their meaning',
     'A line from the TNC is accepted exactly if the whole line is one of OK, WRONG, IAMALIVE, BUFFER n, BUSY ON|OFF, PTT ON|OFF, DISCONNECTED, PENDING, CANCELPENDING, CONNECTED a b or REGISTERED c (n a decimal usize, callsigns 3 to 7 upper-case letters or digits), and it is then understood as that response with those arguments. No form is shadowed by another that is a prefix of it, and no line is ever treated as incomplete.',
     ['inputs'], 'every byte string received as a line',
     'The tests parse no TNC line; the claim is about all byte strings, including prefixes, suffixes and numbers out of range.',
     [V, 'src/types.rs'], [('tnc_response and the parsers it combines', V), ('callsign', 'src/types.rs')],
     'grammar extraction from the nom combinators by abstract interpretation; comparison with the protocol grammar',
     'Exact for the combinators used; nom combinators are trusted to behave as documented.',
     'The parser the modem task applies to complete lines is evaluated to its set of alternatives: sequences of literals, character runs with bounds, numbers and end-of-input, with the value each alternative yields and its side conditions, in order. The set must equal the protocol\'s table, every atom must use nom\'s complete (not streaming) mode, and no alternative may match a prefix of a later one in an ordered choice.')

prop('C04', 'Each status line updates exactly its own status, with its own value',
     'When the TNC reports a heartbeat, its buffer level, busy state, PTT request, registration or connection state, exactly the corresponding accessor of VaraTnc (or the connection wait) sees exactly that value, once, before anything else is read. Registered callsigns accumulate; nothing else is published and no status line ends the driver.',
     ['inputs', 'histories'], 'every status line with all arguments, after every history of earlier lines',
     'No test runs the modem task; the claim covers all interleavings of lines in a chunk and all accumulated histories.',
     [V], [('do_a_thing', V), ('channel', V), ('VaraTnc accessors', V)],
     AI + ': each line form of the extracted grammar is followed to its effects',
     'Watch channels are trusted to deliver the last value; conflation of intermediate values is inherent to them.',
     'Each alternative of the response grammar is substituted for the parse result and followed through the handling code to the next parse, read or return. The effects on that path must be exactly one publication of the protocol\'s value on the channel that the public accessor of that status reads (the channels are identified by analysing the accessors on the very value the builder returns). The published set of callsigns must be a loop-carried accumulator that starts empty once and only grows.')

prop('C05', 'Command results answer commands first in, first out, each exactly once',
     'Every command taken from the queue is written and its reply slot remembered once; every OK or WRONG received is sent, with its own value, to the oldest command still unanswered, and to that one only. No result is dropped while a reply is pending, and the driver ends normally only when every reply has been sent.',
     ['histories', 'schedules'], 'every interleaving of commands and result lines, any number of results in one read',
     'Pairing depends on the order of queue operations over unbounded histories; no test runs the modem task.',
     [V], [('manage_modem_thread', V), ('do_a_thing', V)],
     AI + ': typestate of reply slots and results over all paths',
     'All paths of the task; channel and queue operations have their documented meaning.',
     'A finite-state dataflow over the event graph of the modem task tracks: command taken / reply queued / written; results recorded, being delivered by index, delivered; reply popped, answered; queue known empty. The pending queue must be a loop-carried value only changed by push_back of the reply just received and pop_front; the results list must start empty at each read and only grow by recorded results.')

prop('C06', 'Lines are reassembled exactly once and in order from any chunking',
     'The modem, rig and session readers split the byte stream into terminated lines independently of how it was chunked: each complete line is processed exactly once and in order, and the bytes after the last terminator are kept, unchanged, for the next read. Bytes are never processed twice, lost or reordered.',
     ['inputs', 'histories'], 'every byte stream and every way of splitting it into reads',
     'A property of all chunkings and all contents of the carried-over buffer; the tests do no I/O.',
     [V, K, M], [('do_a_thing', V), ('manage_rig_thread', K), ('main read loops', M)],
     AI + ': typestate of the receive buffer',
     'All paths; in main the first read loop may stop at a line ending in the prompt \'>\'.',
     'At each read the buffer must be appended to; from there on every path is followed: the framing parser (its grammar must be "up to the terminator, then the terminator", streaming) must be applied to the whole buffer and then to what each application left, until it reports incomplete or nothing is left, before anything else is read or awaited; then the buffer must be set to exactly the unconsumed suffix (cleared only if that is empty, untouched only if nothing was consumed). Lengths are compared symbolically.')

prop('C07', 'End of stream and I/O errors end the driver; nothing spins',
     'When the control connection or the rig port reports end of stream or an I/O error, the task that reads it stops with an error at once, and the program stops using a connection that ended; a read that would merely block is not an error. No loop of the driver tasks or of main runs without waiting for something, consuming input or counting.',
     ['schedules', 'crash_points'] if False else ['schedules', 'histories'], 'every point at which a stream can end or fail',
     'Faults can hit any read or write in any state of the task; the tests inject none.',
     [V, K, M], [('do_a_thing', V), ('manage_modem_thread', V), ('manage_rig_thread', K), ('main', M)],
     AI + ': fault propagation dataflow and cycle analysis of the event graph',
     'All paths; relies on the modelled results of tokio reads and writes.',
     'For each read and write of the stream, the error outcome and the zero-byte outcome are followed: no further use of the stream, no wait and no normal return may follow (a WouldBlock error kind must not end the task). Every cycle of each task\'s event graph must contain an await, a successful parse step, a queue removal or a counter.')

T = 'src/types.rs'

prop('C02', 'PTT requests of the TNC key the transmitter, and nothing else does',
     'Whenever the TNC reports PTT ON the rig is sent TX; and whenever it reports PTT OFF it is sent RX;, each change once and with its own value, and the rig is keyed for no other reason. The relay from the modem to the rig runs before a connection is requested.',
     ['histories', 'schedules'], 'every history of PTT reports and every schedule of the three tasks involved',
     'The path crosses three tasks, a watch channel, a command queue and a serial port; no test runs any of them.',
     [V, M, K], [('do_a_thing PTT handling', V), ('main PTT relay', M), ('manage_rig_thread', K)],
     AI + 's, composed over the channels that connect them',
     'Intermediate PTT states that a watch channel conflates are inherent to it. The transmitted bytes are trusted to reach the rig.',
     'The value published for each PTT line (C04) is substituted for what the relay task spawned by main reads from that channel; each path from a change to the next wait must send the rig one command; that command is substituted in the rig task and its write compared with the KX3 text. In main, a dataflow over the event graph requires modem task, rig task and relay to be spawned before the CONNECT command is queued.')

prop('C08', 'A stream carries the data connection until the remote disconnects',
     'Every poll of a connected VaraStream (read, write, vectored write, flush, shutdown) is exactly the same poll of the TNC data connection, whatever was polled before; once the TNC has reported the link disconnected (or the driver task has ended), every later poll ends it instead: reads give end of stream, the other polls fail with ConnectionAborted. No disconnect reported after the connection was made is missed, and no other status ends the stream.',
     ['histories', 'schedules'], 'every sequence of polls, with the disconnect reported between any two of them',
     'Depends on the state the stream keeps between polls and on where the disconnect falls; the tests never create a stream.',
     [V], [('AsyncRead and AsyncWrite for VaraStream', V), ('remote_dc watcher task in connect', V)],
     'abstract interpretation of every poll method over the closure of stream states; typestate of the watcher task',
     'What was received but not yet read when the disconnect is reported may be lost (two independent sockets): not covered.',
     'The set of values a stream can take is closed under all poll methods, starting from what connect returns. For each value and method the polls of the disconnect signal and of the data socket, the arguments passed, and the result returned must be the required ones; a state that has seen the signal never touches the socket again and never polls the finished signal in a way that can panic. The watcher must fire the signal exactly on Disconnected and end only then or when the modem task has gone (which also ends the stream), and must start with the receiver that connect used.')

prop('C09', 'Dropping a stream forces a disconnect exactly unless the link is down',
     'Dropping a VaraStream while the TNC\'s last status is anything but Disconnected makes the driver send exactly one DISCONNECT to the TNC; dropping one whose link is reported Disconnected sends none. VaraStream::disconnect and abort send exactly their own command and are Ok exactly if the TNC accepted it.',
     ['histories', 'crash_points'], 'every state a stream can be in when it is dropped, including early returns and errors of its user',
     'Drop happens at arbitrary points of the user\'s code; the tests never create a stream.',
     [V], [('Drop for VaraStream', V), ('VaraStream::disconnect and abort', V), ('forced disconnect task', V)],
     'abstract interpretation of drop for every reachable stream state, and of the task it signals',
     'The forced DISCONNECT is best effort when the runtime itself is shut down at the end of main.',
     'The drop path of each value of the state closure of C08 is interpreted: it must fire the forced-disconnect signal exactly if the status it looks at is not Disconnected. The task that waits for that signal, spawned in connect, must send exactly one Disconnect command then, and none if the signal was dropped. disconnect() and abort() are checked by typestate: the right command, and its answer.')

prop('C10', 'connect succeeds exactly when the TNC accepts and reports the connection',
     'VaraTnc::connect discards status changes of earlier connections, sends exactly one direct CONNECT with the caller\'s two stations in order, and returns a stream exactly if the TNC answers OK and the next status is connected; a WRONG answer, any other status, or the loss of the modem task is an error, and it never waits after WRONG.',
     ['histories', 'schedules'], 'every history of earlier connections and every order of answer and status lines',
     'Depends on what the status channel saw before and on the order of asynchronous events; the tests never connect.',
     [V], [('VaraTnc::connect', V)],
     AI + ': typestate of connect over all its paths',
     'Cancellation of connect by its caller is not covered.',
     'A dataflow over the event graph of connect: stale change discarded, command queued (value compared), reply received, change awaited, status looked at, return. Every return is compared with the branch facts about reply and status.')

prop('C25', 'The builder connects to the configured host and ports, or refuses',
     'VaraTncBuilder opens first the control and then the data connection, to the configured host; the data port defaults to the control port plus one, and control port 65535 without a data port is refused with an error before anything is opened. Each setter changes its own setting only; the defaults are localhost and 8300; build never panics.',
     ['inputs'], 'all hosts and all pairs of ports',
     'The claim covers all ports, the last one included; the tests build no modem.',
     [V], [('VaraTncBuilder', V)],
     'abstract interpretation of the builder over symbolic settings',
     'Exact for the builder; the connections are trusted to go where tcp connect is told.',
     'Setters are interpreted on a symbolic builder and must replace exactly one field, each another one, by their argument. build is interpreted for the cases: data port set, data port unset with an increment that cannot or can overflow; each connect address is compared, panics must be unreachable, and the connections must end up in the modem task and the modem value respectively.')

prop('C26', 'main sets the TNC up, connects, and identifies itself once',
     'The program connects only after the TNC accepted its callsign, text compression and wide bandwidth, in that it never continues after a refused command; it connects directly from its own call to the requested target. Once the remote\'s prompt has been received it sends its B2F identification line followed by FF exactly once, and never before the prompt.',
     ['histories', 'schedules'], 'every sequence of answers from the TNC and every chunking of what the remote sends',
     'Depends on every answer and on the chunking of the session; no test runs main.',
     [M], [('main', M)],
     AI + ': typestate of main over all its paths',
     'The identification text itself is checked against the B2F SID form; the FF that follows against the protocol.',
     'A dataflow over the event graph of main: which commands were accepted (branch facts on each reply), whether the prompt was seen (a buffer ending in > or the prompt line), what was written to the data stream. CONNECT requires the three settings accepted and the callsigns of the options; the only write is the identification, after the prompt, once, by write_all; a normal end requires it.')

prop('C28', 'A wait that is given up loses nothing',
     'Wherever the modem task, the rig task or main waits for several things at once or for a limited time, the waits it gives up lose nothing: no command, reply or received byte that such a wait had already taken is dropped with it, and no line is left half written.',
     ['schedules'], 'every order in which the things waited for become ready',
     'Which branch of a select! is dropped, and how far it had got, depends on the schedule; no test runs the tasks.',
     [V, K, M], [('select! in manage_modem_thread', V), ('select! in manage_rig_thread', K)],
     AI + ': ownership dataflow of what a suspended branch holds',
     'Relies on tokio\'s documentation of which of its waits are cancel safe. Futures that a caller of the library drops (connect(), say) are not covered.',
     'For every point at which a future that is polled by hand (a branch of a select!, or under a time limit) can be pending: the wait must be one that tokio documents as cancel safe (recv, readable, read_buf, ...; not write_all, read_line or a send to a queue), and every message, reply or chunk received earlier by the same branch must by then be held outside of the coroutine that is dropped with the branch (compared as occurrences in the abstract store).')

prop('C27', 'The driver tasks run while they can be used and then end',
     'The modem task and the rig task go on until the last handle that can send them commands is gone, or until an error happened: a failed read or write, the end of the stream, a line that cannot be parsed. Nothing else makes them give up, an answer that no command waits for included. Once no command can come they take no more, wait for outstanding answers only, and end without an error.',
     ['histories', 'schedules'], 'every sequence of commands, received chunks and dropped handles',
     'Lifetime is a claim about every history of commands, answers and handles; no test runs the tasks.',
     [V, K], [('manage_modem_thread', V), ('manage_rig_thread', K)],
     AI + ': typestate of each task over all its paths',
     'Whether the TNC answers at all is its own affair (see C32).',
     'A dataflow over the event graph of each task carries whether the command channel was seen closed, whether the queue of replies is known to hold any, and which error (if any) was seen: an Err from an operation, a chunk of length zero, a parse error. A normal end requires the closed channel; an error end requires an error; after the channel closed, every wait requires a queue known not to be empty, and no further receive is made.')

prop('C29', 'Each TNC command method sends its own command and returns its own answer',
     'send_compression, send_bandwidth, send_disconnect, send_abort and send_callsign each queue exactly one command, their own, with the caller\'s argument unchanged, wait when the queue is full, and return Ok exactly if the TNC answered that command OK. A refused command and a lost modem task are errors.',
     ['histories', 'schedules'], 'every argument, every answer and every state of the command queue',
     'No test calls a command method; the claim covers all interleavings with other callers.',
     [V], [('VaraTnc::send_compression, send_bandwidth, send_disconnect, send_abort, send_callsign', V)],
     AI + ': typestate of each method over all paths',
     'The pairing of answers and commands inside the modem task is C05.',
     'Each method is interpreted on the modem value that the builder returns; every path must send one command on the queue the modem task reads, await the oneshot whose sender went with it, and return Ok exactly under the fact that the reply is Ok.')

B = 'src/fbb.rs'
GX = 'grammar extraction from the nom combinators by abstract interpretation; '

prop('C13', 'A B2 message block is accepted only with a right checksum and CRC',
     'b2_message_block accepts a message exactly if its framing is right and both the modulo-256 checksum after EOT brings the sum of all data bytes (the CRC and size in front of them included) to zero and the CRC-16 in its first two bytes is the CRC of the uncompressed size and every data byte after it. The CRC, size and blocks it returns are the very ones received.',
     ['inputs'], 'every byte string, with any number and lengths of blocks and any corruption of them',
     'Integrity is a claim about every corrupted and every intact message; the tests parse one intact sample.',
     [B, 'src/crc16.rs'], [('b2_message_block', B), ('Crc16', 'src/crc16.rs')],
     GX + 'linear normal form of the checksum modulo 256, bit-level linear form of the CRC step, closed forms of the loops',
     'A message without data blocks has size and CRC 0. The strength of CRC-16 itself is not a claim.',
     'The parser is expanded to its outcomes with atoms, values and side conditions. Loops over blocks and bytes are put in closed form (folds over the flattened blocks; only loops that can leave to a result by exhausting their sequence). The sum condition must have, as a linear form modulo 256, coefficient one for the checksum, both CRC bytes, all four size bytes and every data byte; the CRC condition must compare the received CRC with a fold of the CRC step, recognised in a GF(2) bit domain, from 0 over the four size bytes and all data bytes in order. No other condition may be imposed.')

prop('C14', 'B2 message framing: header, blocks and end are read as in the protocol',
     'A message block is SOH, a length of at most 88, a header of just that length holding a printable title, NUL, a decimal offset, NUL; then any number of STX blocks of 1 to 256 bytes (length byte 0 means 256), then EOT and the checksum byte. Nothing else is accepted, and input that ends early anywhere is reported as incomplete, never as an error or a shorter message.',
     ['inputs', 'histories'], 'every byte string and every point at which received input may end so far',
     'Covers all lengths, the 256-byte case and all truncations; the tests parse one complete sample.',
     [B], [('b2_message_block and the parsers it is made of', B)],
     GX + 'comparison with the protocol grammar, exhaustive over the length byte; streaming-mode check of every primitive parser',
     'The header is delimited by its length, so its content is parsed as complete.',
     'The extracted grammar must be the protocol sequence; the number of bytes a block takes is evaluated for each of the 256 values of its length byte, as is the condition under which the block is accepted. Every primitive parser applied to the outer input must be a streaming one.')

prop('C15', 'Message proposals are parsed exactly, with every field in its place',
     'FA/FB and FC EM proposals are accepted exactly in their documented form: private, bulletin or traffic; sender (1-6), BBS (1-40), recipient (1-6), message id (1-12), sizes of 1-6 digits, single spaces, one trailing CR; FC EM with or without the sender, BBS and recipient. Each field of the result is the text at its own place, the sizes its decimal value, and an unfinished line is incomplete.',
     ['inputs'], 'every byte string',
     'The tests parse a few sample lines; the claim covers all field lengths, all sizes and all truncations.',
     [B], [('fbb_proposal', B), ('winlink_proposal', B)],
     GX + 'comparison with the proposal formats',
     'Fields must be UTF-8.',
     'The parsers are expanded to ordered alternatives of literals, character runs with bounds, numbers, and the value built from the captures; each is compared with the format. The capture at each place must end up in the field of that name.')

prop('C16', 'A selection has one answer per proposal, in order, with its meaning',
     'selection reads FS, a space, and exactly one answer per proposal in proposal order: + Y H accept from 0; ! or A and 1-6 digits accept from that offset; = L defer; - N R E reject. Anything else is an error, and an unfinished selection is incomplete.',
     ['inputs'], 'every byte string and every number of proposals',
     'The number of proposals is a parameter of the type; the tests try two samples.',
     [B], [('selection', B), ('selection_element', B)],
     GX + 'the loop over the answers put in closed form',
     'Trailing input after the last answer is left to the caller.',
     'The loop must read each answer from what the previous one left, store it at its own index, and leave only when the index reaches the number of proposals. The alternatives of one answer are compared with the protocol table.')

prop('C17', 'Crc16 is CRC-16/XMODEM for every byte sequence',
     'Starting from 0, Crc16 folds each byte with polynomial 0x1021, most significant bit first, without final xor, in the order given, and never panics.',
     ['inputs'], 'every byte sequence',
     'The tests compare a few strings; a wrong entry of the table or a lost carry shows on other bytes only.',
     ['src/crc16.rs'], [('Crc16', 'src/crc16.rs')],
     'abstract interpretation in a linear (GF(2)) bit domain, compared with the definition bit by bit',
     'Exact.',
     'update is interpreted on a symbolic state and byte. The result is put in a domain where each bit is an xor of input bits (loops over constant counts are iterated, tables of linear maps are verified to be linear); it must equal the 16 linear forms of the definition. CRC over sequences is then the fold of that step, as required by C13.')

T = 'src/types.rs'
prop('C11', 'A station id is a well-formed callsign, and holds it in upper case',
     'Making a StationId (new, FromStr, TryFrom, StationIdRef::from_str) succeeds exactly if the whole text is an optional prefix of letters or digits and /, at most one digit, letters, digits, a letter, letters or digits, and any number of - or / suffixes of letters or digits; anything else is refused with an error. The id holds exactly that text with ASCII letters in upper case, so ids that differ only in case are equal. It never panics.',
     ['inputs'], 'every string',
     'The tests make two ids; the language of the expression and the scan for lower case letters are about all strings.',
     [T], [('STATION', T), ('StationId::normalize', T)],
     'equivalence of finite automata (the regular expression in the source against the documented form); dataflow over the scan of the text',
     'The regex crate is trusted to match what its syntax says.',
     'Every way to make an id is interpreted with a symbolic text. Each return is tied to the branch on Regex::is_match before it; the expression (with the flags of its builder) is read from the static it comes from, turned into a deterministic automaton over Unicode and compared with the automaton of the documented form: a difference is reported with a shortest text that shows it. Accepted texts must be returned through to_ascii_uppercase, or unchanged after a loop over all bytes (or characters) each of whose turns excludes a to z (decided for each of the 256 values), or after a comparison with the upper-cased text.')

prop('C12', 'Text made without a UTF-8 check is ASCII',
     'Every conversion of received bytes to text that skips the UTF-8 check (from_utf8_unchecked) is only ever given bytes that its parser has restricted to ASCII, so no input from the TNC, the rig or the remote station can produce an invalid string.',
     ['inputs'], 'every byte string received',
     'Invalid UTF-8 is undefined behaviour that no test observes; which bytes reach a conversion depends on the parser around it.',
     [B, V, T], [('header', B), ('buffer', V), ('callsign', T)],
     'enumeration of the unchecked conversions in the MIR; byte-set analysis of the parsers that feed them',
     'Exact for the combinators used.',
     'Every call of an unchecked conversion in the crate and the program is an obligation. All parser functions are expanded to their grammars; whenever a function or closure with such a call is evaluated, what it is given must be a literal or a capture whose byte set lies below 128, or the output of a parser all of whose alternatives are. A conversion that is reached in no parser, or with bytes the analysis cannot trace to a parser, is reported.')

Z = 'src/lzhuf.rs'
prop('C18', 'LZHUF bit streams: bits are read and written once each, in order',
     'Reading single bits and whole bytes, in any mixture, yields exactly the bits of the input bytes in order, most significant first, and None exactly when too few are left. Writing codes of any length the encoder uses appends exactly their bits, and the last partial byte is written once, padded with zeros. Neither panics.',
     ['inputs', 'histories'], 'every input, and every sequence of reads or writes',
     'The tests read six bytes, or bits alone; mixtures of both at every alignment, the end of the input and codes longer than 15 bits are not sampled.',
     [Z], [('Biterator', Z), ('Bitbuffer', Z)],
     'abstract interpretation in a linear (GF(2)) bit domain, fixpoint over the reachable buffer states',
     'Codes of up to 24 bits; the depth of the Huffman tree is bounded by its total frequency (32768) to fewer.',
     'A state is the constant fields and, for the buffer, which stream bit each of its bits is (relative to the next unread one). Starting from new(), every operation is interpreted from every reachable state with 0 to 3, or 4 and more, bytes of input left; its result and the state it leaves are compared bit by bit with the stream. The states are finitely many (17 for the reader, 8 for the writer).')

prop('C19', 'LZHUF match positions are coded by the standard position code',
     'Every position 0..2047 is written as the standard LZHUF prefix code of its upper six bits followed by its lower six bits, and every such code is read back as that position, taking exactly its bits; a position that is cut short is not decoded. Nothing panics.',
     ['inputs'], 'every position and every bit string',
     'The samples use few positions; an entry of one of the four tables shows only on positions that use it.',
     [Z], [('decode_position', Z), ('encode_position', Z)],
     'abstract interpretation, comparison with the canonical code for every table index',
     'Exact.',
     'Decoding is interpreted for each value of the first byte of a code, the later bits staying symbolic (linear bit domain); the result must be the position of the canonical code and the reader must stand right behind it. Encoding yields one path of bit writes whose closed integer terms are evaluated for each of the 2048 positions. The canonical code is generated from its lengths (1, 3, 8, 12, 24 and 16 codes of 3 to 8 bits), not copied from the tables.')

prop('C20', 'Decompression yields exactly the bytes the token stream denotes',
     'Each decoded symbol is found by walking the tree from its root one bit per branch and updates the tree once; below 256 it is that byte, otherwise it stands for symbol - 253 bytes copied one by one from position + 1 bytes back in the output (spaces before its beginning). Decoding stops exactly when the buffer is full, and reports an end of input before that instead of returning. A message is decompressed from all its blocks, in order, into exactly the announced number of bytes.',
     ['inputs'], 'every token stream, buffer size and tree state',
     'The samples use few matches; a copy that overlaps itself, wraps around the window or is cut by the end of the buffer shows on other streams only.',
     [Z, B], [('decode', Z), ('decode_char', Z), ('update_text_buffer', Z), ('decompress', B)],
     'transition system over loop heads with inductive linear invariants (modulo 2048 for the window)',
     'Exact for the expansion of tokens. That the adaptive tree stays a tree is assumed, not shown (see C30, C31).',
     'decode is interpreted with decode_char and decode_position opaque; what happens between two loop heads becomes a transition with its conditions. The number of bytes written is the loop variable that starts at 0 and grows with every byte; a match is a mode with a counter that starts at 0 and ends at symbol - 253. Every transition must write what its mode asks for: the literal, or the window byte at write position - position - 1 modulo 2048, at the next place of the buffer and of the window. decode_char is a walk: from the root, each bit selects child or its neighbour, leaves are recognised by index.')

prop('C21', 'The tokens that compression writes stand for exactly the input',
     'For every input, the literals and matches that encode writes stand, in order, for the bytes of the input, each byte once and none left over: a literal is the next byte, a match is one found at the position of the next byte and is no longer than the input that is left, and every byte is put at its place in the window, where its old match positions are forgotten first. Each symbol is written as the way from the root of the tree to its leaf, and the tree learns it exactly once. No index or number of encode leaves its range.',
     ['inputs'], 'every byte string, of every length',
     'Which tokens are written depends on the length of the input relative to the window and the look-ahead, and on where repetitions fall; the tests compress a few samples.',
     [Z], [('encode', Z), ('encode_char', Z), ('insert_node', Z), ('delete_node', Z)],
     'abstract interpretation to a transition system between loop heads; inductive invariants over linear forms of the loop variables, found and checked by dataflow',
     'Assumes that a match that was forgotten is not found again, that every symbol has a leaf below the root (C31), and takes from C22 that a match is one.',
     'encode is abstracted to its paths between loop heads. Four quantities are found as linear forms over the loop variables and checked to change as they must on every path: the bytes taken from the input, the position of the next byte, the bytes taken and not yet passed over, and the bytes of the last token still to be passed over. The reachable combinations of facts (ended, look-ahead full, match fresh, last token done) are then followed through all paths; every token, window write, insertion, overflow and bounds check and return is an obligation. encode_char is checked against the walk from the leaf: the code, by exact bit vectors; the count of bits; the end at the root; and the single update.')

prop('C22', 'A match that compression finds is one',
     'Whenever the search for a match records a length and a distance, the bytes at that distance before the position it looks at were found equal to those at the position, for that length, whatever the contents of the window and of its search trees. The length is never recorded without its distance, and the search does not change the window.',
     ['inputs', 'histories'], 'every state of the window and the search trees, every position',
     'A match one byte too long, or with the distance of another node, needs repetitions of the right lengths in the right places; the tests compress a few samples.',
     [Z], [('insert_node', Z)],
     'abstract interpretation to a transition system; comparison facts followed through the loops by induction over the loop variables',
     'That the first byte is equal follows from each first byte having a search tree of its own, which is assumed; that the node is not of a byte since overwritten is C21.',
     'On every path on which insert_node changes the length or the distance of the match, the distance must name a position whose bytes 1 to n-1 are known to be equal to those at the inserted position: each round of the loop that counts them is on a path with the comparison of the two bytes at that count, and the count is the one recorded. The window may not change on any path.')

prop('C23', 'The code tree learns each symbol as the LZHUF standard prescribes',
     'In a new tree every symbol counts one and each pair of nodes is joined in order; learning a symbol adds one to the count of every node on the way from its leaf to the root; a node whose count then exceeds the next one\'s is exchanged, with its children and their parent links, with the last node of lesser count before the way goes on from the parent of its new place. When the count of the root has reached 0x8000, the tree is rebuilt first: leaves keep their order with half their counts, rounded up, each pair is joined in order by a node put behind the last one of no greater count, and the children of every node learn their parent. Nothing else of the coder\'s state changes.',
     ['inputs', 'histories'], 'every symbol, every state of the tree, every history of symbols',
     'The tree is rebuilt only after some 32,000 symbols and most exchanges need particular counts; the tests compress and decompress a few short samples with the same tree on both sides, so a tree that learns wrongly still round-trips.',
     [Z], [('update', Z), ('reconstruct', Z)],
     'abstract interpretation to a transition system; the table writes of each round compared as a map with the prescribed ones',
     'That the tree is well formed and its counts sorted is an inductive invariant over its contents and is assumed (C30, C31); shown is that each step does what the standard prescribes.',
     'The tables of a new tree follow by constant propagation and are compared with the standard\'s. update and reconstruct are turned into transition systems over the loop heads. For each round of the way to the root, the writes to the three tables are resolved to final values per index (indices are told apart by their distance from the node and by the scan having gone up) and compared with what counting, or counting and exchanging, must write; the scan must have compared every count it went past and stopped at the first not less. For the rebuild, each of the three loops must run over exactly 627 entries (or 314 to 626) and write, on every path, exactly what halving, inserting and linking prescribe, one after the other, with nothing in between.')

prop('C24', 'Nothing received makes the driver, the program or a parser panic',
     'No bytes from the TNC, the rig or the remote station, in any chunking and order, no argument and no order of calls, no event that a caller gives up on, and no end of a connection or task makes the modem task, the rig task, the main program once it is connected, a stream or a message parser panic: no slice, index or subtraction leaves its range, no addition overflows, and nothing absent is unwrapped.',
     ['inputs', 'histories', 'schedules'], 'every byte string received, every chunking, every state of the streams and tasks',
     'A panic needs the one input, or the one order of events, whose value is out of range; the tests parse well-formed messages and run no task.',
     [V, M, K, B, T, 'src/parser.rs'], [('manage_modem_thread', V), ('VaraStream', V), ('main', M), ('manage_rig_thread', K), ('b2_message_block', B)],
     'abstract interpretation with interval, linear and length facts; every operation that can panic is a proof obligation',
     'Allocation failure and panics inside the trusted libraries are excluded, as is decompression (C18 and C19 cover its bits and positions; see C31 for its tree).',
     'Every bounds check, overflow check, slice, split, unwrap, expect and explicit panic on any path of the tasks, the polls of a stream in each of its states, its drop, the methods of the modem, and every parser function with the closures it runs (diagnostics enabled), is an obligation, and so is every call of a library function that is known to panic. It is discharged if the facts on all paths to it imply that it cannot fail: known values, bounds of integers, linear inequalities between lengths (a remainder is never longer than what it is the remainder of, by induction over loops), offsets found by a line reader, and the bytes its parser lets through. Otherwise the construct is reported.')

prop('C34', 'Nothing waits while it holds a status or a lock that others need',
     'No task, stream or method suspends while it holds a borrow of a status or the guard of a lock that blocks threads. None of them changes or borrows a status, takes the lock or blocks its thread while it holds a borrow of that status or a guard of that lock. So the modem task can always publish what the TNC reports, whatever those who look at a status do.',
     ['schedules', 'histories'], 'every interleaving of the tasks that publish and look at statuses',
     'A status held across an await blocks the modem task only when the TNC changes that status in between: the thread then stops for good. The tests run no task.',
     [V, M, K], [('VaraTnc::connect', V), ('VaraStream', V), ('main', M)],
     'coroutine witness types; dataflow of held guards over the MIR with the locks each callee may take (call graph closure)',
     'Two statuses of the same type held in one function are told apart by where they were borrowed from; calls through function pointers are not followed.',
     'rustc computes for each coroutine the types of what it keeps across a suspension: none of them may own a watch::Ref or a guard of a std or parking_lot lock, however deep inside a local type, an enum, a tuple or a closure. In every body a forward analysis finds which locals own such a guard at each call (set by assignment, cleared by move, drop and storage end); a call made meanwhile may not, directly or through the functions, closures and drops it reaches, take a lock of the same type of status (a different place is exempt where both are known), nor block its thread.')

na('C30', 'A message that is compressed and decompressed comes back unchanged',
   'Compressing any byte string and decompressing the result with the announced size yields the same bytes, and the stream is the one other LZHUF implementations produce and accept.',
   ['inputs'], 'every byte string',
   'The tests round-trip a few samples.',
   [Z], [('encode', Z), ('decode', Z)],
   'The whole round trip rests on both sides\' adaptive Huffman trees staying equal and well formed through updates that swap nodes by frequency: an inductive invariant over arrays of 627 nodes with quantified contents, which needs a theorem prover and not a static analysis. Its parts that dataflow can decide are C18 (bits), C19 (positions), C20 and C21 (tokens), C22 (matches) and C23 (what the tree learns).')

na('C31', 'Decompression never panics, whatever it is fed',
   'No input makes decompression index outside its tree or its tables, or overflow.',
   ['inputs'], 'every byte string and size',
   'The tests decode well-formed streams.',
   [Z], [('decode_char', Z), ('update', Z)],
   'Every index into the tree comes out of the tree, so its range is the tree invariant of C30 (each child is a node, each parent is above its child, frequencies are sorted). Slices, positions and bit operations are covered by C18, C19 and C20.')

na('C32', 'A link that falls silent is noticed',
   'If the TNC stops sending heartbeats or the remote station stops answering, a waiting caller is told within a bounded time.',
   ['schedules', 'fault_sequences'], 'every point at which the TNC or the link can fall silent',
   'The tests have no clock and no TNC.',
   [V, M], [('VaraTnc::connect', V), ('main', M)],
   'The code has no deadline on any wait (the heartbeat is only logged), so there is no guarantee to check; a bound on time is also outside what static analysis of the source decides.')

na('C33', 'All data received before a disconnect is read before the end of the stream',
   'When the remote station disconnects, a reader still gets every byte the TNC delivered on the data connection before it sees the end of the stream.',
   ['schedules'], 'every order in which data and the disconnect arrive on the two connections',
   'No test runs a stream.',
   [V], [('VaraStream::poll_read', V)],
   'Data and the disconnect line travel on two TCP connections whose relative order the TNC does not promise: which bytes were delivered before the disconnect is a fact about the sockets at run time that the source does not determine. C08 and C09 decide what a stream does with the end once it sees it.')
