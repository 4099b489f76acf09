"""Writes properties.jsonl, MANIFEST.json and DESIGN.md from one table."""
import importlib
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    return {'id': id, 'title': title, 'statement': statement,
            'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
            'anchors': {'files': files,
                        'mechanism': [{'name': a, 'where': b} for a, b in mech],
                        'state': [{'name': a, 'meaning': b, 'where': c} for a, b, c in state],
                        'observe_at': list(observe), 'hook_needed': hook}}


PROPS = [
    prop('P01', 'User-key mode behaves as a dictionary',
         'In user-key mode, every reply of SET, GET, MGET, DEL, EXISTS, LENGTH, KEYTIME, CHECK and DBSIZE is the one an ordinary '
         'dictionary from binary keys (1 to 255 bytes) to binary values (up to 8 MiB) would give after the same history. '
         'Rewriting a key with its current value reports that nothing changed; refused commands change nothing.',
         ['histories', 'inputs', 'configurations'],
         'every sequence of commands, key and value bytes, file rotation size and hash table size',
         'The tests replay fixed sequences over a few short text keys with the default sizes: colliding buckets, file rotations, '
         'equal checksums of different values, binary keys and long histories are never reached.',
         ['zdbd/commands_set.c', 'zdbd/commands_get.c', 'zdbd/commands_dataset.c', 'libzdb/index_set.c', 'libzdb/index_get.c',
          'libzdb/index_branch.c', 'libzdb/data.c'],
         [('hash branches and per-namespace lookup', 'libzdb/index_branch.c, index_entry_get'),
          ('up-to-date check', 'libzdb/data.c data_match, zdbd/commands_set.c'),
          ('file rotation', 'zdbd/commands_set.c, index_jump_next, data_jump_next')],
         [('branches', 'in-memory table of live keys', 'libzdb/index.h index_root_t')], ['RESP replies']),
    prop('P02', 'Sequential mode hands out increasing ids which stay addressable',
         'In sequential mode an insertion returns a new identifier, greater than all earlier ones and never used again, under which '
         'the value is readable until it is deleted, across file rotations, forced jumps and updates. An update through an '
         'existing identifier keeps that identifier; a write or a read through an identifier never handed out is refused.',
         ['histories', 'inputs', 'configurations'],
         'every sequence of insertions, updates, deletions, jumps and rotations',
         'The tests insert a handful of values in a few files; the mapping from identifiers to files and positions after empty '
         'files, updates and deletions needs generated histories.',
         ['libzdb/index_seq.c', 'libzdb/index_set.c', 'libzdb/index_get.c', 'zdbd/commands_set.c'],
         [('identifier to file map', 'libzdb/index_seq.c index_fileid_from_seq'),
          ('fixed-size entries', 'libzdb/index_seq.c index_seq_offset')],
         [('seqmap', 'first identifier of each index file', 'libzdb/index.h')], ['RESP replies', 'NSINFO next_internal_id']),
    prop('P03', 'A restart or a reload shows exactly what was there before',
         'After a graceful stop, a STOP command, a kill, or a RELOAD, every namespace has the same keys, values, timestamps, '
         'versions, settings, counters and enumeration order as before, whatever was written, deleted or rotated. '
         'Only temporary locks and client sessions are lost.',
         ['histories', 'configurations'],
         'every history over several namespaces of both modes, cut by restarts of any kind',
         'The tests never compare the whole state across a restart, and never with deletions, updates and rotations mixed over '
         'several namespaces.',
         ['libzdb/index_loader.c', 'libzdb/data.c', 'libzdb/namespace.c', 'zdbd/commands_namespace.c'],
         [('replay of the index files', 'libzdb/index_loader.c index_load_file'),
          ('namespace descriptor', 'libzdb/namespace.c namespace_descriptor_load')],
         [], ['RESP replies before and after']),
    prop('P04', 'An interruption loses nothing acknowledged and the server starts again',
         'When the process ends at any point of any command (or of a start), with the block being appended cut anywhere, the next '
         'start succeeds and shows the state either before or after the command in progress, with every acknowledged command. '
         'That state does not change with later restarts, and writing continues normally.',
         ['crash_points', 'histories'],
         'every file operation of every command and of recovery itself, every cut of the appended block',
         'No test interrupts the server between two file operations; recovery of half-written files is not tested at all.',
         ['libzdb/index_loader.c', 'libzdb/index_set.c', 'libzdb/index.c', 'libzdb/data.c', 'libzdb/namespace.c'],
         [('data first, then index, then flag of the previous entry', 'libzdb/index_set.c index_update_entry_memkey'),
          ('incomplete last entry discarded', 'libzdb/index_loader.c, libzdb/data.c data_discard_incomplete')],
         [], ['exit by an interposed file operation, then RESP replies']),
    prop('P05', 'A failing disk write is reported and harms nothing',
         'When the operating system refuses or shortens file writes, the command replies with an error and the state stays the previous one, '
         'or it succeeds and the state is the new one; no other key is ever affected. When a new file cannot be created the process may stop '
         'instead. When the fault ends, and after a restart, the database works and shows the acknowledged state.',
         ['fault_sequences', 'histories'],
         'every sequence of refused or shortened writes at every file operation of every command',
         'The tests have no way to make a write fail.',
         ['libzdb/data.c', 'libzdb/index.c', 'libzdb/index_set.c', 'zdbd/commands_set.c', 'libzdb/namespace.c'],
         [('rollback of a partial record', 'libzdb/data.c data_insert_rollback'),
          ('index append rolled back', 'libzdb/index.c index_append_entry_on_disk')],
         [], ['RESP replies, then a restart']),
    prop('P06', 'SCAN, RSCAN, KEYCUR and KSCAN enumerate exactly the live keys',
         'Following the cursors of SCAN lists every live key once, with its size and timestamp, in write order, and RSCAN in the '
         'reverse order, whatever the number of deleted entries, files and time slices in between, while writes go on. A cursor '
         'from KEYCUR starts at its key, and a forged or outdated cursor never crashes or corrupts anything; KSCAN lists '
         'exactly the keys with the prefix.',
         ['histories', 'inputs', 'schedules'],
         'every history of writes and deletions, every interleaving of cursor steps with writes, every cursor value',
         'The tests walk a small database once and check a few replies.',
         ['zdbd/commands_scan.c', 'libzdb/index_scan.c', 'libzdb/index.c'],
         [('walk over the index files', 'libzdb/index_scan.c'), ('cursor validation', 'libzdb/index.c index_entry_deserialize')],
         [], ['RESP replies']),
    prop('P07', 'HISTORY walks the versions of a key, newest first',
         'HISTORY of a live key returns its current value and timestamp, and following its cursors returns each earlier version '
         'of that key down to the first one, across file rotations, restarts and interleaved writes to other keys. It never '
         'returns a version of another key, and a forged or foreign cursor is refused without harm.',
         ['histories', 'inputs'],
         'every history of updates and deletions, every cursor value',
         'The tests follow one or two versions of one key.',
         ['zdbd/commands_history.c', 'libzdb/index_set.c', 'libzdb/index_get.c'],
         [('parent link of each index entry', 'libzdb/index_set.c'), ('cursor check', 'zdbd/commands_history.c')],
         [], ['RESP replies']),
    prop('P08', 'Data files only grow and every changed index file is reported dirty',
         'Bytes written in a data file are never modified or removed afterwards by any command except FLUSH and NSDEL, so copies taken '
         'by an incremental backup stay valid prefixes. Every index file in which already '
         'written entries were modified since the last reset is listed by INDEX DIRTY.',
         ['histories', 'configurations'],
         'every history of commands, rotations and restarts',
         'The tests never look at the files.',
         ['libzdb/data.c', 'libzdb/index.c', 'zdbd/commands_system.c'],
         [('append-only writes', 'libzdb/data.c data_insert'), ('dirty bitmap', 'libzdb/index.c index_dirty_set')],
         [('dirty.map', 'index files touched since the reset', 'libzdb/index.h')], ['files on disk', 'INDEX DIRTY']),
    prop('P09', 'Namespaces are isolated and their lifecycle is clean',
         'A command executed in one namespace never changes or shows the keys, versions, settings or counters of another, even for the same keys. '
         'NSNEW creates an empty namespace, NSDEL removes one for good (its clients are told and dropped), and a namespace '
         'created again under the same name shows nothing of the previous one; NSLIST and NSINFO tell what exists.',
         ['histories', 'schedules'],
         'every interleaving of commands of several clients over several namespaces of both modes',
         'The tests use two or three namespaces one after the other.',
         ['libzdb/namespace.c', 'zdbd/commands_namespace.c', 'libzdb/index_branch.c', 'zdbd/redis.c'],
         [('namespace pointer in each key', 'libzdb/index_branch.c'), ('detaching clients', 'zdbd/redis.c redis_detach_clients')],
         [], ['RESP replies']),
    prop('P10', 'Access control is never bypassed',
         'A client reads or writes a namespace only if its password, public flag, worm mode, lock, freeze and the --protect option '
         'allowed it when it was selected (locks and freezes: at that moment), and administrative commands work only for authenticated administrators. A refused '
         'command changes nothing, and no sequence of SELECT, AUTH and NSSET by anybody grants more than the settings say.',
         ['histories', 'configurations'],
         'every history of settings, authentications, selections and commands by clients of different rights',
         'The tests check a few allowed and refused commands in fixed states.',
         ['zdbd/commands.c', 'zdbd/commands_namespace.c', 'zdbd/commands_auth.c', 'zdbd/commands_set.c', 'zdbd/commands_dataset.c'],
         [('admin gate', 'zdbd/commands.c command_admin_authorized'), ('writable flag', 'zdbd/commands_namespace.c command_select'),
          ('lock and freeze', 'libzdb/namespace.c')],
         [], ['RESP replies']),
    prop('P11', 'Quota and statistics are exact',
         'A write is accepted exactly when the live payload bytes of the namespace stay within its maximum size, and refused otherwise '
         'without effect. The entries, payload size, limit, free space and next identifier shown by NSINFO and DBSIZE are '
         'those of the live content after any history, including restarts.',
         ['histories', 'inputs'],
         'every history of writes, updates, deletions and limit changes, with sizes on both sides of the limit',
         'The tests cross one limit once.',
         ['zdbd/commands_set.c', 'zdbd/commands_namespace.c', 'libzdb/index_set.c', 'libzdb/index.c', 'libzdb/index_loader.c'],
         [('counters kept on each insertion, update and deletion', 'libzdb/index_set.c, index_entry_delete_memory')],
         [('stats', 'live entries and bytes', 'libzdb/index.h')], ['NSINFO', 'DBSIZE']),
    prop('P12', 'FLUSH empties one private namespace and nothing else',
         'FLUSH leaves the selected namespace empty, in memory and on disk, keeps its settings and mode, and it works as new '
         'afterwards, also after a restart. Other namespaces are untouched, and FLUSH is refused on public or password-less, '
         'locked or frozen namespaces.',
         ['histories'],
         'every history over several namespaces with flushes, rotations and restarts',
         'The tests only check that the command answers.',
         ['libzdb/namespace.c', 'libzdb/filesystem.c', 'zdbd/commands_namespace.c'],
         [('removal of data and index files', 'libzdb/filesystem.c dir_clean_cb')], [], ['RESP replies', 'files on disk']),
    prop('P13', 'The protocol parser is independent of chunking and survives any bytes',
         'The replies depend only on the bytes a client sends, not on how they are split over packets nor on what other clients send. Any '
         'byte sequence is either a valid request or is refused on that connection only, without crash, memory error, '
         'stall, or effect on other clients.',
         ['inputs', 'schedules'],
         'every byte sequence and every way to cut it',
         'The tests use a well-behaved client library which sends whole valid requests.',
         ['zdbd/redis.c', 'zdbd/commands.c', 'zdbd/socket_epoll.c'],
         [('incremental reader', 'zdbd/redis.c redis_read_client, redis_handle_resp_*')],
         [('buffer', 'bytes of a partial request', 'zdbd/redis.h')], ['RESP replies', 'AddressSanitizer']),
    prop('P14', 'Corruption of stored payloads is detected and contained',
         'When stored payload bytes are altered on disk, CHECK reports the affected key and only it, and the integrity tool '
         'reports the affected file. Whatever bytes the files contain, no command and no start crashes or corrupts memory of the '
         'server, and unaffected keys stay readable while the file structure is intact.',
         ['inputs', 'histories'],
         'every alteration of the data files, for every content',
         'No test alters a file.',
         ['zdbd/commands_dataset.c', 'libzdb/data.c', 'tools/integrity-check/integrity-check.c', 'libzdb/crc32.c'],
         [('crc32 of each payload', 'libzdb/data.c data_check, data_integrity')], [], ['CHECK', 'integrity-check']),
    prop('P15', 'Offloaded or missing data files are served on demand or fail cleanly',
         'When a data file is absent, reads of the keys it holds fail with an error after the missing-data hook was asked to '
         'restore it, and succeed with the right value if it was restored; other keys are unaffected and nothing is '
         'created in its place. DATA RAW returns the exact stored record at a given place.',
         ['histories', 'fault_sequences'],
         'every history, every set of absent data files, with or without a hook restoring them',
         'The tests never remove a file.',
         ['libzdb/data.c', 'libzdb/hook.c', 'zdbd/commands_system.c'],
         [('missing-data hook', 'libzdb/data.c data_open_id_mode'), ('raw read', 'libzdb/data.c data_raw_get')], [], ['RESP replies', 'hook log']),
    prop('P16', 'WAIT wakes exactly the clients waiting for that event',
         'A client waiting with WAIT in a namespace is released when, and only when, another client runs the awaited command '
         'in that namespace, or when its timeout expires; it is then told which, exactly once. A waiting client which leaves '
         'never disturbs others.',
         ['schedules', 'histories'],
         'every interleaving of waiting, notifying and leaving clients over several namespaces',
         'The tests wait once with one client.',
         ['zdbd/commands_system.c', 'zdbd/redis.c', 'zdbd/commands.c'],
         [('trigger after each successful command', 'zdbd/redis.c redis_posthandler_client, zdbd/commands.c')],
         [], ['RESP replies']),
    prop('P17', 'The library interface behaves as the server does',
         'Through the embedding interface (set, get, exists, check, delete), any sequence of operations gives the results of a '
         'dictionary (or of increasing identifiers in sequential mode), across closing and reopening. The files it leaves are '
         'readable by the server, and the other way round, and rotate by the same rule. A call during which the files cannot be written '
         'or read fails and changes nothing, or gives the right answer; if the process ends within a call, the content after the next opening is the '
         'one before or after that call.',
         ['histories', 'inputs', 'configurations', 'fault_sequences', 'crash_points'],
         'every sequence of calls in every mode, every point of a call where a read or write fails or the process ends',
         'One example program covers a single fixed sequence.',
         ['libzdb/api.c', 'libzdb/bootstrap.c', 'libzdb/libzdb.c'],
         [('api handlers', 'libzdb/api.c')], [], ['return values of the interface']),
    prop('P18', 'Index rebuilding and compaction preserve the live content',
         'An index rebuilt from the data files of a namespace, or a namespace compacted, gives a database with the same live keys and values '
         '(and identifiers in sequential mode) as the original, for any history. Deleted keys stay deleted.',
         ['histories', 'configurations'],
         'every history, in both modes',
         'The tools have no test.',
         ['tools/index-rebuild/index-rebuild.c', 'tools/quick-compaction/quick-compact.c', 'libzdb/data.c'],
         [('replay of the data files', 'tools/index-rebuild/index-rebuild.c')], [], ['server started on the result']),
    prop('P19', 'Offline tools report what is stored',
         'index-dump, namespace-dump and namespace-editor show (or change) exactly the entries and settings stored on disk, for any '
         'history, and change nothing else. The server then shows the edited settings.',
         ['histories', 'inputs'],
         'every history and every setting',
         'The tools have no test.',
         ['tools/index-dump/index-dump.c', 'tools/namespace-dump/namespace-dump.c', 'tools/namespace-editor/namespace-editor.c'],
         [('loading of index files and descriptors', 'libzdb/index_loader.c, libzdb/namespace.c')], [], ['tool output', 'RESP replies']),
    prop('P20', 'Hooks run once per event with the right arguments',
         'With an external hook configured, each namespace creation, update, deletion, reload, file rotation, start and stop runs it '
         'exactly once with the event name and arguments describing the event, in order for blocking ones. HOOKS lists them, '
         'and a slow or failing hook changes no reply; a jump-index hook which fails leaves the list of dirty index files as it was.',
         ['histories', 'configurations'],
         'every history of events',
         'The tests run without checking the hook calls.',
         ['libzdb/hook.c', 'libzdb/namespace.c', 'libzdb/index.c', 'zdbd/zdbd.c'],
         [('hook execution and bookkeeping', 'libzdb/hook.c')], [], ['hook script log', 'HOOKS']),
    prop('P21', 'Challenge authentication accepts one valid answer once',
         'AUTH SECURE and SELECT SECURE succeed exactly for the SHA-1 answer to the last challenge issued on that connection, and a challenge '
         'is worth one attempt. The checksum and digest primitives agree with reference implementations for every input.',
         ['inputs', 'histories'],
         'every sequence of challenges and answers over several connections, every input of the primitives',
         'The tests answer one challenge properly.',
         ['zdbd/commands_auth.c', 'zdbd/commands_namespace.c', 'zdbd/auth.c', 'libzdb/sha1.c', 'libzdb/crc32.c'],
         [('nonce per client', 'zdbd/commands_auth.c')], [], ['RESP replies', 'primitive outputs']),
    prop('P22', 'No namespace name reaches outside the data and index directories',
         'Whatever bytes are given as namespace name to NSNEW, NSDEL, NSSET, SELECT, RELOAD or any other command, files are only created, changed '
         'or removed in the directories of that namespace under the configured data and index roots. Names which '
         'cannot be contained are refused.',
         ['inputs', 'histories'],
         'every byte sequence as name',
         'The tests use a few plain names.',
         ['libzdb/namespace.c', 'zdbd/commands_namespace.c', 'libzdb/filesystem.c'],
         [('name validation', 'libzdb/namespace.c namespace_valid_name')], [], ['interposed file operations']),
    prop('P23', 'Concurrent clients get each reply once, in order, to the right connection',
         'Each connection receives exactly the replies to its own requests, complete and in order, whatever the pipelining, the size of replies, '
         'slow reading and the coming and going of other clients. A client which disconnects at any moment affects no one else, and '
         'its complete requests sent before are executed at most once.',
         ['schedules', 'histories'],
         'every interleaving of sends, reads and disconnections of several clients',
         'The tests use a single well-behaved client.',
         ['zdbd/redis.c', 'zdbd/socket_epoll.c'],
         [('response queue and partial sends', 'zdbd/redis.c redis_send_response')], [], ['RESP replies']),
    prop('P24', 'A mirrored database converges to the content of its source',
         'A client registered with MIRROR receives every effective change of the database, in order, in a form which, replayed by an authenticated '
         'MASTER on another server, gives that server the same keys, values, timestamps and namespaces. Clients which '
         'are no master cannot forge such changes.',
         ['histories', 'schedules'],
         'every history of changes in several namespaces',
         'Replication has no test.',
         ['zdbd/commands_replicate.c', 'zdbd/redis.c', 'zdbd/commands.c'],
         [('forwarding of successful changes', 'zdbd/redis.c')], [], ['bytes received by the mirror', 'RESP replies of the replica']),
    prop('P25', 'Files on disk follow the documented format',
         'After any history, an independent reader of the documented file format finds in the data and index files '
         'exactly the live keys, values, timestamps, links and settings, with matching sizes, checksums and file headers. Both '
         'kinds of files agree with each other.',
         ['histories', 'configurations'],
         'every history in both modes',
         'The tests never read the files.',
         ['libzdb/data.h', 'libzdb/index.h', 'libzdb/data.c', 'libzdb/index.c', 'README.md'],
         [('entry and header layout', 'libzdb/data.h, libzdb/index.h')], [], ['files on disk']),
    prop('P26', 'One process per directory, and only with a matching mode',
         'A second server on a data or index directory already in use refuses to start and leaves the first one undisturbed. A server '
         'started with a mode other than the one stored, or over an index of another format, refuses to start and changes no '
         'stored byte. Once a server has ended, in whatever way, the directories can be used again.',
         ['configurations', 'histories'],
         'every combination of shared directories, modes and contents',
         'The tests start one server.',
         ['libzdb/bootstrap.c', 'libzdb/index_loader.c', 'zdbd/zdbd.c'],
         [('exclusive lock', 'libzdb/bootstrap.c'), ('mode check', 'libzdb/index_loader.c')], [], ['exit codes', 'files on disk']),
    prop('P27', 'With --sync, an acknowledged change is on stable storage',
         'With --sync, every data and index file written by a command has been flushed to stable storage before the command is '
         'acknowledged, for every kind of change: after a power loss which drops everything not flushed, the acknowledged '
         'changes are there. With --secure, the files left by a rotation are flushed; with --synctime N, the first '
         'write made more than N seconds after the previous flush is flushed. A stop (signal or STOP), or the handler of a crash, '
         'flushes the current files of every namespace.',
         ['histories', 'crash_points'],
         'every history of changes',
         'Tests cannot observe flushes.',
         ['libzdb/data.c', 'libzdb/index.c', 'libzdb/index_seq.c'],
         [('fsync after each write', 'libzdb/data.c data_write, libzdb/index.c index_write')], [], ['interposed file operations']),
    prop('P28', 'Serving requests accumulates neither memory nor descriptors',
         'Any cycle of requests, refused ones and broken connections included, which leaves the content as it was can be repeated for ever: '
         'memory held by the server, its open descriptors and its children stay the same after each repetition, '
         'whatever the commands, the namespaces created and removed and the clients which come and go.',
         ['histories', 'schedules'],
         'every cycle of commands and connections which ends where it began',
         'The tests end after a few requests each and never look at what the server holds.',
         ['zdbd/redis.c', 'zdbd/commands_set.c', 'zdbd/commands_scan.c', 'libzdb/namespace.c', 'libzdb/hook.c', 'libzdb/index_set.c'],
         [('release of requests, responses and clients', 'zdbd/redis.c redis_free_request, socket_client_free'),
          ('release of namespaces', 'libzdb/namespace.c'), ('release of index entries', 'libzdb/index.c index_entry_delete_memory')],
         [], ['bytes allocated, read inside the process', '/proc descriptors and children']),
    prop('P29', 'Files rotate when full, asked or old, and only then',
         'A SET starts a new pair of data and index files exactly when its payload would exceed --datasize, NSJUMP always does, and with '
         '--rotate N a namespace written since its last rotation does once more than N seconds passed; nothing else does. Data and index files are '
         'numbered alike, from 0 without gap, and no rotation changes content. A size out of bounds is refused at start.',
         ['histories', 'configurations'],
         'every history of writes with sizes around the limit, of jumps, restarts and elapsed time',
         'The tests never fill a file nor let one become old.',
         ['zdbd/commands_set.c', 'zdbd/commands_namespace.c', 'zdbd/redis.c', 'libzdb/index.c', 'libzdb/data.c', 'zdbd/zdbd.c'],
         [('size check before each write', 'zdbd/commands_set.c command_set'), ('rotation of old files', 'zdbd/redis.c redis_files_rotate')],
         [('updated', 'index written since its last rotation', 'libzdb/index.h')], ['files on disk', 'RESP replies']),
    prop('P30', 'A replica which follows the data records is identical',
         'In user-key mode, a replica which repeatedly asks DATA RAW for the record at the place where its own data ends, applies it with its timestamp, '
         'and jumps when EOF is answered (as the incremental update script does), reaches the source: same data files (but for the backward offset of the first record of each file), '
         'same keys, values, timestamps and versions, whenever it follows and across restarts of both.',
         ['histories', 'schedules'],
         'every history of the source, every moment at which the replica follows, payloads which fit in a file',
         'No test replicates anything; the incremental update script has no test.',
         ['tools/incremental-update/incremental.py', 'zdbd/commands_system.c', 'libzdb/data.c', 'zdbd/commands_set.c', 'zdbd/commands_dataset.c'],
         [('raw record', 'libzdb/data.c data_raw_get'), ('place of the end', 'zdbd/commands_namespace.c NSINFO data_current_offset'),
          ('forced timestamps', 'zdbd/commands_set.c, zdbd/commands_dataset.c')], [], ['RESP replies', 'data files of both sides']),
    prop('P31', 'The replication utilities copy the default namespace',
         'In user-key mode, db-sync copies every live key of the default namespace with its exact value, and keeps other keys of the target; keys which change '
         'meanwhile have one of their values or are absent. A target followed by db-replicate has every live key and value of the source after each '
         'change made while it waits. Nothing which was never on the source appears.',
         ['histories', 'schedules'],
         'every history of the source before, during and between the copies',
         'The utilities have no test.',
         ['utilities/db-sync/db-sync.c', 'utilities/db-replicate/db-replicate.c', 'zdbd/commands_scan.c', 'zdbd/commands_system.c'],
         [('enumeration and copy', 'utilities/db-replicate/db-replicate.c replicate_from_reply'), ('WAIT', 'zdbd/commands_system.c')],
         [], ['RESP replies of the target']),
    prop('P32', 'The counters and clocks the server reports are exact',
         'INFO reports exactly the clients accepted, the requests executed, unknown and unauthorized, the bytes received from and sent to clients, '
         'the bytes written to the files of each kind and the writes which were refused, since the start; boot_time, uptime and TIME follow the clock.',
         ['histories', 'fault_sequences'],
         'every history of requests (pipelined, cut, unknown, refused, of any client, departed ones included), of refused writes and of restarts',
         'The tests only look that INFO answers.',
         ['zdbd/commands_system.c', 'zdbd/redis.c', 'zdbd/commands.c', 'libzdb/data.c', 'libzdb/index.c'],
         [('INFO', 'zdbd/commands_system.c command_info'), ('counters', 'zdbd/redis.c, zdbd/commands.c redis_dispatcher, libzdb/index.c index_write')],
         [('stats', 'counters since the start', 'zdb_stats_t, zdbd_stats_t')], ['INFO', 'TIME']),
    prop('P33', 'Start options are validated and take effect',
         'A data file size below 512 KiB or not below 4 GiB - 1, or which is not a number with an optional unit, an unknown mode or option, a missing argument, '
         'the same directory for data and index, or --protect without a password is refused at start, and nothing is created or changed; everything accepted takes effect: '
         'the exact data file size, mode, default size limit, administrator password, protection of the default namespace, the endpoints to listen on and no other, '
         'background mode, log file, dump without change, and the exit code of each signal.',
         ['inputs', 'configurations', 'histories'],
         'every size text, every combination of options and values over series of starts on the same directories',
         'The tests start the server with two fixed sets of options.',
         ['zdbd/zdbd.c', 'zdbd/redis.c', 'zdbd/socket_epoll.c', 'libzdb/settings.c', 'libzdb/bootstrap.c', 'libzdb/security.c'],
         [('options', 'zdbd/zdbd.c main, libzdb/bootstrap.c zdb_settings'), ('sizes', 'zdbd/zdbd.c, human readable parsing'),
          ('endpoints', 'zdbd/redis.c redis_listen')],
         [], ['exit code', 'files', 'listening sockets', 'RESP replies']),
    prop('P34', 'A failing read is reported and harms nothing',
         'When reading or opening a stored file fails or returns less, a command answers an error or its right answer: never another value, never that an existing '
         'key is missing, and an enumeration never ends early as if nothing was left. A start which meets failing reads refuses, or serves nothing which was not stored. Nothing stored '
         'changes: once reads work again, everything is as before.',
         ['histories', 'fault_sequences'],
         'every history, with the failing read, its errno, the bytes it gives before and its repetition chosen among all reads and opens',
         'The tests never make a read fail.',
         ['libzdb/data.c', 'libzdb/index.c', 'libzdb/index_get.c', 'libzdb/index_scan.c', 'libzdb/index_loader.c', 'zdbd/commands_get.c', 'zdbd/commands_scan.c',
          'zdbd/commands_history.c'],
         [('payload and entry reads', 'libzdb/data.c data_get_real, libzdb/index.c index_item_get_disk'), ('walks', 'libzdb/index_scan.c'),
          ('loading', 'libzdb/index_loader.c index_load_file, libzdb/data.c data_open_final')],
         [], ['RESP replies', 'files']),
    prop('P35', 'Running out of descriptors delays new clients and harms nothing',
         'When the server has no descriptor left, connected clients go on: each command gets its right answer, or an error without effect when it needs to open '
         'a file. New clients wait, and are served once descriptors are free again, each of them. Nothing stored is lost or changed, and the server neither ends '
         'nor needs a restart.',
         ['histories', 'fault_sequences'],
         'every history of commands, arrivals and departures of clients while the limit on descriptors is lowered and raised',
         'The tests use one client at a time and never reach the limit.',
         ['zdbd/socket_epoll.c', 'zdbd/redis.c', 'libzdb/data.c', 'libzdb/index.c', 'libzdb/namespace.c', 'zdbd/commands_set.c'],
         [('accept', 'zdbd/socket_epoll.c socket_client_accept'), ('opening of files', 'libzdb/data.c data_open_id_mode, libzdb/index.c index_open_file_readonly')],
         [], ['RESP replies', 'files']),
    prop('P36', 'A read-only disk is served, and nothing of it is lost',
         'When the disk of the data files, of the indexes, or of both is read-only, since the start or from any moment on (as when the kernel remounts a failing '
         'disk), everything stored is served as before, through each command which only reads, and the server can be stopped and started. Each change is refused '
         'and has no effect: writing, deleting, rotating, flushing, creating or deleting a namespace never ends the server and never loses or hides what is '
         'stored. Once the disk is writable again, everything works, with everything which was stored.',
         ['histories', 'fault_sequences'],
         'every history, with the moments at which each disk becomes read-only and writable again, under the running server or between two starts',
         'The tests never use a read-only disk.',
         ['libzdb/namespace.c', 'libzdb/index_loader.c', 'libzdb/index.c', 'libzdb/data.c', 'zdbd/commands_set.c', 'zdbd/commands_namespace.c', 'zdbd/redis.c'],
         [('opening of files', 'libzdb/index_loader.c index_try_rootindex, libzdb/data.c data_open_final, libzdb/namespace.c namespace_descriptor_open'),
          ('rotation', 'zdbd/commands_set.c command_set, libzdb/index.c index_jump_next, libzdb/data.c data_jump_next')],
         [], ['RESP replies', 'files']),
]

TECH = {
    'P01': 'stateful model-based testing against a dictionary model (server under AddressSanitizer)',
    'P02': 'stateful model-based testing against an identifier model',
    'P03': 'stateful model-based testing with restarts, whole-state comparison',
    'P04': 'model-based testing with generated interruption points and torn writes',
    'P05': 'model-based testing with generated write faults',
    'P06': 'stateful model-based testing with interleaved cursors and forged cursors',
    'P07': 'stateful model-based testing of version chains, forged cursors',
}
LEVEL = {'P04': 'fault_enumeration', 'P05': 'fault_enumeration'}
NOTE = ('Bounded random search with an explicit oracle: no counterexample among the generated cases of this seed; '
        'it never establishes absence. Trusts the model, the interposed clock and file operations, and the sandbox kernel.')
NOTES = {}
NA = {}


def main():
    checks, na = [], []
    for p in PROPS:
        i = p['id']
        path = os.path.join(V, 'zv', 'checks', i.lower() + '.py')
        if i in NA:
            na.append({'property': i, 'reason': NA[i]})
            continue
        if not os.path.exists(path):
            na.append({'property': i, 'reason': 'not built yet'})
            continue
        c = importlib.import_module('zv.checks.' + i.lower()).CHECK
        checks.append({
            'property': i,
            'quick_cmd': 'python3 -m zv.check %s --tier quick' % i,
            'thorough_cmd': 'python3 -m zv.check %s --tier thorough' % i,
            'evidence_file': 'evidence/%s.json' % i,
            'technique': 'property-based testing: ' + getattr(c, 'technique', TECH.get(i, 'stateful model-based testing')),
            'level': LEVEL.get(i, c.level),
            'level_note': NOTES.get(i, NOTE) + (' Assumes: ' + '; '.join(c.assumptions) + '.' if c.assumptions else ''),
        })
        assert checks[-1]['level'] == c.level, i
    m = {'version': 1, 'setup_cmd': 'python3 -m zv.build', 'checks': checks, 'not_applicable': na,
         'notes': 'No hook in /repo: the file operations, the clock and the socket reads are interposed at link time '
                  '(native/shim.c). Every check: python3 -m zv.check ID [--seed N] [--replay FILE].'}
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p in PROPS:
            assert len(p['title']) <= 80, p['title']
            f.write(json.dumps(p) + '\n')
    design()


DESIGN = {
    'P01': ('a dictionary keyed by bytes, with versions and times', 'collisions in the hash table, keys which are prefixes of others, sizes at each boundary and histories mixing them'),
    'P02': ('a map from identifiers to values, the next identifier, and the position of each in its file', 'histories combining rotations (size, NSJUMP), updates in old files, deletions and restarts'),
    'P03': ('the model, compared with everything observable before and after', 'the replay of the index at start must be right for every history'),
    'P04': ('two models: before and after the command interrupted', 'each file operation of each command, and each byte of the block appended, is a crash point'),
    'P05': ('the model before, or after, according to the reply', 'the point of failure, the error and the part written multiply with the history'),
    'P06': ('the ordered list of live entries of the model; for a kept cursor the list from that place on', 'cursors are kept while keys are moved, deleted and files rotated; forged ones are arbitrary bytes'),
    'P07': ('the list of versions of each key', 'chains which cross files, deletions and interleaved keys'),
    'P08': ('byte comparison with the previous image of every file; the set of index files modified since the last reset', 'every command in every state of the files'),
    'P09': ('one dictionary per namespace', 'same keys everywhere in one shared hash table; names which are prefixes of others; reuse of names'),
    'P10': ('a model of settings, and of the rights each client received when it selected', 'orders of SELECT, AUTH, NSSET between clients'),
    'P11': ('counters recomputed from the content', 'boundary values reached by any history, and after a replay of the index'),
    'P12': ('images of all files before and after; the model', 'flushes at any point of a history, of several namespaces in both modes'),
    'P13': ('an independent parser of the protocol, and the model', 'all segmentations and all byte strings'),
    'P14': ('the set of entries whose payload no longer has its checksum (own CRC-32C); no crash', 'arbitrary bytes in arbitrary places of the files'),
    'P15': ('for each live key, the file of its payload and its presence; records by the independent reader', 'which files are absent and what the hook does multiply with the history'),
    'P16': ('for each waiting client, the commands awaited, where, until when', 'schedules of several clients with a clock'),
    'P17': ('a dictionary (or identifiers), then the server and the independent reader on the same files', 'sequences of calls across closing, reopening and changes of program, with failing reads and writes and the end of the process within a call'),
    'P18': ('the model at the time asked for; the independent reader', 'histories with deletions, rotations, versions and kills before the tool runs'),
    'P19': ('the independent reader of index and descriptor; comparison of all files before and after', 'every field of every entry of every history'),
    'P20': ('the list of events of the model, the log written by the hook itself', 'behaviours of the hook (slow, failing, killed, not executable) multiply with the events'),
    'P21': ('Python hashlib and table CRC; the challenges issued and spent on each connection', 'answers to other challenges or connections, replays, formats, lengths'),
    'P22': ('comparison of the whole scratch tree, decoys included; calls recorded by the shim', 'all byte strings as names'),
    'P23': ('one model per connection, prefixes for those which left', 'interleavings of partial sends, receives and disconnections'),
    'P24': ('the model, against a second server fed with the stream', 'streams of any history, with owners, timestamps and clients without rights'),
    'P25': ('an independent reader of the file format', 'every history, every field'),
    'P26': ('comparison of all bytes before and after, then the whole state', 'pairs of starts on shared directories, modes, foreign index files'),
    'P27': ('the log of writes and flushes at each answer; a power loss which drops what was not flushed', 'each command of each kind must flush each file it wrote, in each state'),
    'P28': ('bytes allocated, descriptors and children counted after each of ten repetitions', 'leaks of particular paths (errors, refusals, disconnections) only show over repetitions'),
    'P29': ('size arithmetic of the active file, the list of files', 'values which end exactly at, before or after the limit, with forced and timed rotations'),
    'P30': ('the files of the replica, byte for byte, and the model', 'catch-ups at any moment of any history'),
    'P31': ('the dictionary of the source, and what was on the target', 'histories before, during and between the copies'),
    'P32': ('counters kept by the clients of the check and by the log of writes of the shim', 'each path which counts, or forgets to: errors, pipelines, departures, restarts, refused writes'),
    'P33': ('an exact rational reading of size texts; the whole tree before and after; connections tried on every endpoint', 'combinations of options over series of starts'),
    'P36': ('the model, all replies compared; the whole state once writable', 'moments and places at which the disk refuses, across starts, in each state of the files'),
    'P35': ('the model, for each client; the whole state once the limit is raised', 'each place which opens something, reached with each number of descriptors left'),
    'P34': ('the model, all replies compared; the whole state once reads work again', 'each read of each command, in each state of the files'),
}


def design():
    """DESIGN.md: prose, one section per property, the planted bugs."""
    here = os.path.join(V, 'meta')
    out = open(os.path.join(here, 'design_head.md')).read()
    for p in PROPS:
        i = p['id']
        out += '### %s — %s\n\n%s\n\n' % (i, p['title'], p['statement'])
        if i in NA or not os.path.exists(os.path.join(V, 'zv', 'checks', i.lower() + '.py')):
            out += '*Not claimed*: %s\n\n' % NA.get(i, 'not built yet')
            continue
        c = importlib.import_module('zv.checks.' + i.lower()).CHECK
        out += '* **Specified over**: %s.\n' % p['quantifier']['text']
        out += '* **Generated and judged**: %s\n' % c.rule
        oracle, reach = DESIGN[i]
        out += '* **Oracle**: %s.\n' % oracle
        out += '* **Beyond the tests**: %s; %s\n' % (reach, p['why_tests_cant'])
        if c.assumptions:
            out += '* **Assumptions and bounds**: %s.\n' % '; '.join(c.assumptions)
        out += '* **Cases** (quick / thorough): %s.\n' % ', '.join('%s %d / %d' % (x.name, x.quick, x.thorough) for x in c.parts)
        out += '* **Anchored in**: %s.\n\n' % ', '.join('`%s`' % f for f in p['anchors']['files'])
    out += '## 3. Planted bugs\n\n'
    out += ('Each was written from the statement and the code, confirmed (it builds, the stable tests pass, '
            'the demonstration fails), and is kept in `seeded/`. *Caught by* is the list of checks seen to report it '
            'with the quick tier.\n\n| bug | what breaks | needs | caught by |\n|---|---|---|---|\n')
    caught = json.load(open(os.path.join(here, 'caught.json')))
    sd = os.path.join(V, 'seeded')
    for n in sorted(os.listdir(sd)):
        m = json.load(open(os.path.join(sd, n, 'meta.json')))
        out += '| %s | %s | %s | %s |\n' % (n, m['what_it_breaks'].replace('|', '/'), m['needs'].replace('|', '/'), caught.get(n, m['property']))
    out += open(os.path.join(here, 'design_tail.md')).read()
    with open(os.path.join(V, 'DESIGN.md'), 'w') as f:
        f.write(out)


if __name__ == '__main__':
    main()
