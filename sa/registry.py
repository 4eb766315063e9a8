"""Which rules decide which property."""
import props_vara as V
import props_lines as L
import props_main as M
import props_conn as N
import props_fbb as B
import props_lzhuf as Z
import props_types as T
import props_panics as Q
import props_encoder as X
import props_tree as H
import props_locks as K

COMMON_ASSUMES = [
    'rustc lowers the source to MIR faithfully; the facts driver reads that MIR',
    'library functions behave as their reference semantics in sa/models.py and models/lib.rs say (std, tokio, nom, bytes, regex)',
]

CHECKS = {}


def check(pid, rules, explain, floors=None, assumes=None):
    CHECKS[pid] = {'rules': rules, 'explain': explain, 'floors': floors or {}, 'assumes': assumes or []}


check('C01', [V.c01],
      'Every write to the control socket in the modem task (interprocedural abstract interpretation of the task spawned by the builder) is '
      'compared, under the branch facts at the write, with the protocol line of the command taken from the queue.',
      {'each command written is exactly its protocol line': 15})

check('C03', [L.c03],
      'The parser applied to every complete line in the modem task, expanded to its ordered alternatives with atoms, values and side conditions, compared with the protocol table.',
      {'each line of the protocol is recognised, whole, as its response': 13})
check('C04', [L.c04],
      'Every path from an accepted line of each form to the next parse, read or return in the modem task, and every publication back to its line; its publications against the accessor of that status.',
      {'each status line publishes exactly its value on the channel its accessor reads': 11, 'accessors return what was last published': 5})
check('C05', [L.c05],
      'Typestate of replies and results over every path of the modem task.')
check('C06', [M.c06],
      'Typestate of the receive buffer over every path of the modem task, the rig task and main.',
      {'received bytes are split into lines': 4, 'buffer keeps exactly the incomplete line': 8})
check('C07', [M.c07],
      'Fault and end-of-stream outcomes of every read and write followed over every path of the modem task, the rig task and main; cycles of all tasks.',
      {'every cycle of a task waits, consumes input or counts': 5})
check('C02', [M.c02],
      'The PTT request followed from the modem task\'s publication over the relay task spawned by main to the bytes the rig task writes; order of spawns and connect in main.',
      {'PTT lines become the rig\'s transmit commands': 2})
check('C08', [N.c08],
      'Typestate of every value a VaraStream can take under any sequence of polls, for each poll method; the watcher task that feeds its disconnect signal.',
      {'polls of a live stream reach the data connection; after the remote disconnected they end it': 10})
check('C09', [N.c09],
      'Drop of every value a VaraStream can take, the task that sends the forced DISCONNECT, and disconnect()/abort(); no stream is forgotten, that task is not aborted.',
      {'dropping a stream forces a disconnect exactly unless the link is down': 2})
check('C10', [N.c10],
      'Typestate of VaraTnc::connect over all its paths: stale changes discarded, one CONNECT, its answer, one status change, its value.',
      {'connect succeeds exactly if the TNC takes the command and then reports a connection': 4})
check('C21', [X.c21],
      'encode as a transition system over its loop heads: input bytes taken, bytes ahead, bytes of a token still to be passed over and the write position inferred as inductive linear forms (modulo 2048 for the window); every path between heads, under every combination of what is known there, compared with what a token stands for. encode_char as a walk from the leaf to the root in the linear (GF(2)) bit domain.',
      {'each token stands for the next bytes of the input': 3, 'each input byte is put in the window once, at its place': 2})
check('C22', [X.c22],
      'insert_node as a transition system: the number of equal bytes behind two positions of the window as an inductive invariant of the comparison loop; every path that records a match must record that number and that position.',
      {'a match that is found is one': 3})
check('C24', [Q.c24],
      'Every checked operation (arithmetic, index, slice, split, unwrap, expect, explicit panic) on every path of the driver tasks, the parsers and the commands, '
      'proved under the facts of its path: bounds, linear inequalities over lengths, lengths of parsed remainders by induction, character sets of parsed texts.')
check('C25', [N.c25],
      'Setters, defaults and build of VaraTncBuilder over all ports: addresses connected to, refusal of port 65535 without a data port, panics, which connection goes where.',
      {'connections go to the configured host and ports': 4, 'a setting is stored unchanged': 3})
check('C26', [M.c26],
      'Typestate of main over all its paths: accepted settings, prompt seen, bytes written to the remote.',
      {'main identifies itself once, after the prompt': 1, 'main connects only after the TNC accepted callsign, compression and bandwidth': 1})
check('C27', [L.c27],
      'Typestate of the command queue over every path of the modem task and the rig task: closed or not, answers outstanding, failures seen; no task of the crate\'s own keeps a command sender for ever, and no driver task is aborted.',
      {'a task ends normally only when no one can send it commands': 2, 'a task gives up only after an error': 2})
check('C28', [M.c28],
      'Every wait inside a select! or under a time limit in the driver tasks and main: the wait itself is cancel safe, and nothing that its branch received before is held only by the branch.',
      {'the waits of a task that may be given up are looked at': 3})
check('C29', [N.c29],
      'Typestate of every command method of VaraTnc: exactly its command, then its own answer.',
      {'a command method sends exactly its command and reports the TNC\'s answer': 10})
check('C11', [T.c11],
      'Every way to make a station id, over all its paths: the expression that decides, compared as an automaton with the documented form; the text kept, byte by byte '
      'of its scan for lower case letters.',
      {'a station id holds its text in upper case': 8, 'a text that is not a station id is refused': 8})
check('C12', [T.c12],
      'Every call that makes text of bytes without a UTF-8 check, in every parser function and closure expanded to its grammar: the bytes it is given, as sets.')
check('C13', [B.c13],
      'The message block parser expanded to its outcomes with the conditions each requires: the byte sum is put in linear normal form modulo 256, the CRC loop is recognised bitwise; both must be required to be right, over CRC, size and every data byte.',
      {'a message block is accepted only if its checksum and CRC are right': 4})
check('C14', [B.c14],
      'The message block parser expanded to its grammar: header, block and end forms compared with the protocol (block length for each of the 256 length bytes), and every parser it is made of checked for streaming mode.',
      {'a message block is framed as in the protocol': 5, 'input that ends early is reported as incomplete': 6})
check('C15', [B.c15],
      'The proposal parsers expanded to their alternatives with atoms, values and side conditions, compared with the proposal formats.',
      {'a proposal is recognised exactly, with every field in its place': 8})
check('C16', [B.c16],
      'The selection parser: loop over the answers in closed form, each alternative of an answer compared with the protocol table.',
      {'an answer is recognised exactly, with its meaning': 11, 'a selection is FS and one answer per proposal, in order': 2})
check('C17', [B.c17],
      'One update of Crc16 with symbolic state and byte, in the linear (GF(2)) bit domain, compared bit by bit with CRC-16/XMODEM; start value and result.',
      {'Crc16 is CRC-16/XMODEM': 4})
check('C18', [Z.c18],
      'Every state the bit reader and bit writer of src/lzhuf.rs can reach (constant counters; buffered bits as named bits of the stream), each operation from each state, compared with the next bits of the stream.')
check('C19', [Z.c19],
      'decode_position for each first byte of a code with the later bits symbolic; encode_position for each of the 2048 positions; both against the canonical LZHUF position code.')
check('C20', [Z.c20],
      'decode as a transition system over its loop heads: counters and offsets inferred as inductive linear invariants (modulo 2048 for the window), every path between heads compared with the expansion of a token.')
check('C23', [H.c23],
      'update and reconstruct of the coder state as transition systems: each round of the walk to the root (with the scan inside it) compared, table by table, with one step of the adaptive Huffman code; '
      'each loop of a rebuild with its step; scans followed by induction over their counters.',
      {'each node on the way to the root is counted once': 1, 'a node is exchanged with the last one of lesser count': 5, 'the way goes on from the parent of the new place': 3,
       'the way starts at the leaf; a full tree is rebuilt first': 3, 'leaves keep their order and half their counts': 3, 'each inner node is put where its count belongs': 6, 'every node knows its parent': 3})
check('C34', [K.c34],
      'Every coroutine of the library and the program: the types of what it keeps while it is suspended hold no borrow of a status and no guard of a blocking lock. Every body: which borrows and guards '
      'are held at each call (dataflow over initialisation and moves), and which locks the call may take, directly or through what it calls.',
      {'no wait while a status is held': 10, 'no lock is taken while the status it protects is held': 4})
