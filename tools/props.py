"""What each check runs: harness, stages, bounds.

A stage is one entry function; the executor explores all of its paths. Required
stages must finish; the others use what is left of the tier's time and report
whether they finished."""

T = ["thorough"]


def stage(entry, bounds, **kw):
    return dict(entry=entry, bounds=bounds, **kw)


def deep(entry, bounds, **kw):
    """thorough only, as far as the time reaches"""
    return dict(entry=entry, bounds=bounds, tiers=T, required=False, **kw)


PROPS = {
    "C01": {
        "bin": "c01",
        "stages": [
            stage("c01_connection", "editor connection over a file: text of 0-2 characters (letter, newline), 1 local and 1 remote edit (delete 0-2, insert 0-1), every interleaving"),
            stage("c01_connection2", "editor connection over a file: text of 0-1 characters, 2 local and 1 remote edit (delete 0-1, insert 0-1), every interleaving"),
            stage("c01_wide", "text of 0-2 characters of 1-4 bytes, 1 local and 1 remote edit (delete 0-1, insert 0-1), every interleaving"),
            stage("c01_parts", "text of 0-2 characters, 1 local edit and 1 remote change with two parts, every interleaving"),
            stage("c01_span", "text of 0-3 letters, 1 local and 1 remote edit (delete 0-3, insert 0-2), every interleaving"),
            stage("c01_local", "text of 0-2 characters (letter, newline), 2 local and 1 remote edit (delete 0-1, insert 0-1), every interleaving"),
            stage("c01_remote", "text of 0-2 characters, 1 local and 2 remote edits, every interleaving"),
            stage("c01_queue", "text of 0-1 characters, 1 local and 3 remote edits (letters), every interleaving"),
            stage("c01_burst", "text of 0-1 characters, 3 local and 1 remote edit (letters), every interleaving"),
            stage("c01_nothing", "editor connection over a file: text of 0-1 letters, 2 local and 1 remote edit, some of which may leave the text as it is, every interleaving"),
            stage("c01_nothing2", "the same with 1 local and 2 remote edits"),
            deep("c01_pair", "text of 0-2 characters (1-4 byte characters, newline), 1 local and 1 remote edit (delete 0-2, insert 0-2; remote changes with two parts), every interleaving"),
            deep("c01_both", "text of 0-1 characters, 2 local and 2 remote edits, every interleaving"),
            deep("c01_deep", "text of 0-2 characters, 2 local and 2 remote edits, every interleaving"),
        ],
        "assumptions": ["the editor follows the documented revision protocol and messages in one direction arrive in order"],
    },
    "C02": {
        "bin": "c02",
        "stages": [
            stage("c02_from_editor", "text of 0-4 characters (letters, newline, CR, other line separators, 2-4 byte characters), 1 range edit with any valid start and end and 0-1 characters inserted"),
            stage("c02_to_editor", "text of 0-3 characters as above, 1 change with up to 2 parts turned into editor ranges, applied one after another by an LSP-style reference editor"),
            stage("c02_long", "text of 0-7 letters and newlines, 1 range edit"),
            stage("c02_replacement", "text of 0-2 characters as above, 1 range edit with 0-3 characters of any kind inserted"),
            stage("c02_multi", "text of 0-3 characters as above, 1 edit with up to 2 replacements whose ranges all refer to the old text"),
            stage("c02_multi3", "the same with up to 3 replacements"),
            stage("c02_from_editor5", "text of 0-5 characters, 1 range edit"),
            deep("c02_to_editor4", "text of 0-4 characters, 1 change with up to 3 parts turned into editor ranges"),
        ],
        "assumptions": ["editor positions count Unicode characters in a line and lines are ended by a newline, as the protocol documentation says"],
    },
    "C03": {
        "bin": "c03",
        "stages": [
            stage("c03_one", "two files of 0-2 characters (1-4 bytes, newline), 1 delta with up to 2 parts"),
            stage("c03_two", "two files, 2 deltas, each on either file"),
            stage("c03_three", "two files, 3 operations (delta, create, remove) on letters"),
            stage("c03_large", "one file with more than 64 characters, 1 delta at any place"),
            deep("c03_three2", "two files, 3 deltas"),
            deep("c03_deep", "two files, longer texts"),
        ],
    },
    "C04": {
        "bin": "c04",
        "stages": [
            stage("c04_small", "old and new content of 0-2 characters (1-4 bytes, newline)", covers=[1, 2]),
            stage("c04_ascii", "old and new content of 0-3 characters (letters, newline)", covers=[1, 2]),
            stage("c04_special", "old and new content of 0-2 special characters (space, tab, CR, newline, NUL, quote, backslash, DEL, byte order mark, line separator, 2- and 4-byte character)", covers=[1, 2]),
            stage("c04_large", "a text of 55 characters in 9 lines, 1 replacement at any place of 0, 1, 6 or 40 characters by 0-2 (1-4 bytes, newline)"),
            stage("c04_large_more", "the same with 2 replacements by 0-1 characters at every 6th place"),
            stage("c04_steps", "two changes of content after one another"),
            deep("c04_deep", "old and new content of 0-4 characters", covers=[1, 2]),
            deep("c04_wide", "old and new content of 0-3 characters of 1-4 bytes", covers=[1, 2]),
        ],
    },
    "C05": {
        "bin": "c05",
        "stages": [
            stage("c05_one", "one remote change to one of two files"),
            stage("c05_two", "two remote changes (edit, create, remove) in one sync"),
            stage("c05_diverged", "both peers changed the file before they sync"),
            stage("c05_conflict", "both peers created the same file"),
            stage("c05_late", "a peer that joins late"),
            deep("c05_deep", "longer histories"),
            deep("c05_deeper", "longer histories, more edits"),
        ],
    },
    "C06": {
        "bin": "c06",
        "stages": [
            stage("c06_plain", "one sandbox operation (read, write, append, remove, rename, create directories, existence, ignore status) on any path of 3 components out of names that exist, do not exist, '..', '.' and '', below the directory, below its sibling or leaving it", covers=[1, 2]),
            stage("c06_links", "the same with 2 components and a symbolic link of one of 9 kinds (directory, file, nothing, itself; inside and outside)", covers=[1, 2]),
            stage("c06_peer", "a peer shares, edits and removes a file under one of 13 names, with every kind of link"),
            stage("c06_peer_any", "a peer shares and removes a file whose name has any 2 components, relative or absolute, with every kind of link"),
            stage("c06_editor", "an editor opens, edits and closes one of 13 names, with every kind of link", covers=[1, 2]),
            stage("c06_editor_any", "an editor opens, edits and closes a path of any 2 components, with every kind of link", covers=[1, 2]),
            stage("c06_blind", "read, existence and ignore status of any path of 3 components, with every kind of link, before and after everything outside the directory changed"),
            deep("c06_deep", "one sandbox operation on any path of 3 components, with every kind of link", covers=[1, 2]),
            deep("c06_peer_deep", "a peer shares and removes a file whose name has any 3 components, with every kind of link"),
            deep("c06_editor_deep", "an editor opens, edits and closes a path of any 3 components, with every kind of link", covers=[1, 2]),
        ],
        "assumptions": ["no other process changes links in the directory between a check and its use"],
    },
    "C07": {
        "bin": "c07",
        "stages": [
            stage("c07_names", "16 placements of a file (in .git, .ethersync, directories, names with a tilde, plain, hidden), 10 ways to become shared (at start-up, with --init, after a restart, created, modified, replaced, renamed or moved in, directory moved in, opened by an editor); 0 or 2 arbitrary letters as content", covers=[1, 2]),
            stage("c07_start", "5 placements, 11 sets of ignore rules (.gitignore at the top and in a directory, .git/info/exclude), with and without a repository, at start-up and after a restart", covers=[1, 2]),
            stage("c07_disk", "4 placements, the same 11 sets of rules; created, modified or renamed while the daemon runs (real file watcher)", covers=[1, 2]),
            stage("c07_editor", "4 placements, the same 11 sets of rules; opened by an editor before or after it exists", covers=[1, 2]),
            deep("c07_deep", "all 16 placements, 12 sets of rules and 10 ways", covers=[1, 2]),
        ],
        "assumptions": ["rules of version control apply where there is a .git directory", "files are regular files; global git configuration and rules of parent directories are absent"],
    },
    "C08": {
        "bin": "c08",
        "stages": [
            stage("c08_two", "2 messages to the daemon, each 0-1 arbitrary ASCII bytes, optionally after a text that looks like a header or has multi-byte characters; the stream cut at any 2 places"),
            stage("c08_headers", "2 messages with one of 4 header forms each (plain, further header after or before, plain newlines) and bodies with line breaks; cut at any place"),
            stage("c08_header", "1 message with one of 4 header forms, cut at any 2 places"),
            stage("c08_body", "1 message of 0-12 arbitrary ASCII bytes after one of 3 beginnings, cut at any place"),
            stage("c08_three", "3 messages of 0-1 arbitrary ASCII bytes, cut at any 2 places"),
            stage("c08_back", "2 messages from the daemon, each 0-2 arbitrary ASCII bytes after one of 3 beginnings; cut at any 2 places"),
            stage("c08_back_three", "3 messages from the daemon, cut at any place"),
            deep("c08_deep", "2 messages with one of 4 header forms, 0-2 bytes after one of 4 beginnings, cut at any 2 places"),
            deep("c08_deep3", "3 messages of 0-2 bytes after one of 3 beginnings, cut at any 3 places"),
            deep("c08_back_deep", "3 messages from the daemon of 0-3 bytes after one of 3 beginnings, cut at any 2 places"),
        ],
        "assumptions": ["the language client sends valid headers and UTF-8 bodies; line breaks in a body may become other white space"],
    },
    "C09": {
        "bin": "c09",
        "stages": [
            stage("c09_restart", "3 of: change by a peer, change or removal on disk, file created or removed by a peer, save; then save and restart"),
            stage("c09_offline", "2 changes, then save; 1 of 5 changes while the daemon is not running; restart"),
            stage("c09_offline2", "2 changes while the daemon is not running"),
            stage("c09_twice", "2 lives with 1 change each"),
            stage("c09_first", "the first save interrupted at any change of the file system, with any of 16 parts of a write done", covers=[1, 2]),
            stage("c09_again", "the first save of a second life interrupted, with 16 parts", covers=[1, 2]),
            stage("c09_crash", "the second (incremental) save interrupted after 1 of 4 kinds of changes, with 16 parts", covers=[1, 2]),
            stage("c09_append", "the third save interrupted after 2 of 2 kinds of changes, with 8 parts", covers=[1, 2]),
            stage("c09_torn", "the second save interrupted after a change by a peer, at each of 256 parts of the write", covers=[1, 2]),
            stage("c09_open", "an editor has the file open with 1 edit that it did not save", covers=[]),
            deep("c09_deep", "2 lives with 2 changes each, and 1 change while the daemon is not running"),
            deep("c09_crash_deep", "the third save interrupted after 4 of 5 kinds of changes, at each of 256 parts", covers=[1, 2]),
        ],
        "assumptions": ["a process dies between or within system calls, and what was written before reaches the disk in order"],
    },
    "C10": {
        "bin": "c10",
        "stages": [
            stage("c10_peer", "2 changes of a peer (any edit, create or remove) to 2 files, one of them in missing directories, in one or several messages"),
            stage("c10_files", "3 changes of a peer to 2 files (edits at either end), in one or several messages"),
            stage("c10_editor", "4 actions: peer edits, an editor opens, edits and closes"),
            stage("c10_two", "4 actions: peer edits, two editors open and close, one edits"),
            stage("c10_leave", "4 actions: peer edits, two editors open and close, one disconnects"),
            stage("c10_removed", "4 actions: peer edits, removes and creates, an editor opens, edits and closes"),
            stage("c10_any", "3 actions: any peer edit, an editor opens, edits anywhere and closes"),
            stage("c10_all", "3 actions of a peer and two editors on 3 files"),
            deep("c10_deep", "4 actions of a peer and two editors on 2 files"),
        ],
        "assumptions": ["what an editor's user saves by hand is not modelled"],
    },
    "C11": {
        "bin": "c11",
        "stages": [
            stage("c11_disk", "2 of 11 actions of another program (write, remove, replace, move in or out, rename, invalid UTF-8) with 3 shapes of content of 0-3 arbitrary letters, seen by the real file watcher at once or together"),
            stage("c11_content", "1 of 4 ways to write a file, with content of up to 2 special characters (as in C04)"),
            stage("c11_dirs", "4 of 5 actions on directories (create with a file, rename, remove, move out) and a file"),
            stage("c11_editor", "3 of 6 actions of another program and an editor (write, remove, replace, open, close, edit)"),
            stage("c11_names", "3 of 7 actions on two files (rename to and fro, write; open and close either)"),
            stage("c11_odd", "3 of 7 actions with names that are not UTF-8, or a directory in place of the file"),
            stage("c11_events", "2 of: a change on disk, an editor opening or closing, any file event for 2 files (late, repeated or wrong)"),
            deep("c11_editor_more", "as c11_editor with 2 shapes of content"),
            deep("c11_events3", "as c11_events with 3"),
            deep("c11_deep", "3 of all 16 actions on files and of the editor"),
            deep("c11_deep_dirs", "4 of 8 actions on directories, files and of the editor"),
            deep("c11_events_deep", "4 steps, events for 3 files"),
        ],
        "assumptions": ["inotify reports as the kernel documents it; queues do not overflow"],
    },
    "C12": {
        "bin": "c12",
        "stages": [
            stage("c12_one", "1 message (open, close, cursor, edit with any revision, unknown method; request or notification, any id) about one of 7 targets (open file, new file, ignored file, directory, missing directory, outside, no URI), next to a second editor"),
            stage("c12_edits", "1 edit of 1 or 2 parts with any revision and any positions, inside the text or far outside it; replacement of any letter"),
            stage("c12_two", "2 messages (open, close, cursor, edit) about 2 files"),
            stage("c12_raw", "every line of 2 bytes"),
            deep("c12_raw_more", "every line of 3 bytes"),
            stage("c12_damaged_open", "an open request with any one byte replaced by any other"),
            stage("c12_damaged_cursor", "a cursor request with any one byte replaced by any other"),
            stage("c12_pieces", "3 requests split into 3 pieces at any place"),
            stage("c12_leave", "an editor sends up to 2 messages and disconnects at any moment while another one may type"),
            deep("c12_leave_more", "an editor sends up to 3 messages and disconnects at any moment while another one may type"),
            deep("c12_any", "1 message of any kind about any of 7 targets"),
            deep("c12_three", "3 messages (open, close, edit) about 2 files"),
            deep("c12_deep", "3 messages (open, close, cursor, edit of 1 or 2 parts) about 3 targets"),
        ],
        "assumptions": ["request ids are non-negative numbers and lines are ASCII", "where the protocol does not define what an edit means (a position one past a line, two parts at one place) either outcome is accepted"],
    },
    "C13": {
        "bin": "c13",
        "stages": [
            stage("c13_local", "3 editors of one daemon, 2 of: cursor with 0-1 ranges of arbitrary digits in one of the files, editor leaves, editor connects"),
            stage("c13_ranges", "2 editors, 1 cursor message with 0-3 ranges of arbitrary digits"),
            stage("c13_numbers", "2 editors, 1 cursor with positions from 0 to the largest number"),
            stage("c13_peer", "2 daemons with 1 editor each, 2 actions, exchanged one by one or together"),
            stage("c13_three", "2 daemons with 3 editors, 1 action"),
            stage("c13_together", "2 daemons, 2 editors on one side and 1 on the other, all seen before: 2 of cursor with a range of arbitrary digits, editor leaves; exchanged one by one or together"),
            stage("c13_more", "2 daemons with 3 editors, 2 actions"),
            deep("c13_together3", "the same with 2 editors on each side and 3 actions"),
            deep("c13_deep", "2 daemons with 3 editors, 3 actions"),
            deep("c13_local_deep", "3 editors of one daemon, 3 actions with 0-2 ranges"),
        ],
        "assumptions": ["an editor that connects later need not be told about earlier cursors"],
    },
    "C14": {
        "bin": "c14",
        "stages": [
            stage("c14_dir", "every permission mode (12 bits) of the socket directory", covers=[1, 2]),
            stage("c14_fallback", "no runtime directory given: directory in /tmp missing, or there with every permission mode; 3 umasks", covers=[1, 2]),
            stage("c14_name", "every socket name of 0-4 bytes out of - . / 0", covers=[1, 2]),
            stage("c14_bytes", "every socket name of 0-1 bytes", covers=[1, 2]),
            stage("c14_key_new", "no key file; 4 umasks"),
            stage("c14_key_old", "every permission mode (12 bits) of an existing key file", covers=[1, 2]),
        ],
        "assumptions": ["the file system reports modes truthfully, and the daemon does not run as root", "the daemon ends at a panic, as its panic hook makes it do"],
    },
    "C15": {
        "bin": "c15",
        "stages": [
            stage("c15_port", "settings in the file present or not, every port of 1-5 digits, peer and secret of 1 printable character"),
            stage("c15_file", "settings in the file present or not in several orders, 4 ways to write them, port of 1 digit, peer and secret of 1-3 printable characters"),
            stage("c15_merged", "file and command line: settings present or not, port of 1-2 digits and every port on the command line, peer and secret of 1-2 printable characters"),
            stage("c15_none", "no file"),
            deep("c15_deep", "settings in the file present or not in several orders, 4 ways to write them, port of 1-2 digits, peer and secret of 1-5 printable characters"),
        ],
        "assumptions": ["values contain no quotes or backslashes and do not begin or end with spaces; these have a meaning of their own in the file", "parsing of the command line itself is not part of the check"],
    },
    "C16": {
        "bin": "c16",
        "stages": [
            stage("c16_overlap", "2 incoming messages (8-10 bytes, symbolic contents) arriving in 3 pieces that end anywhere, up to 2 outgoing messages in between, the stream ending anywhere; 2 orders of polling, room for 1 or 4 messages", covers=[1, 2]),
            stage("c16_bytes", "2 incoming messages of up to 45 bytes arriving in 2 pieces and read byte by byte, up to 1 outgoing message, the stream ending anywhere", covers=[1, 2]),
            stage("c16_slow", "2 outgoing messages over a stream that takes 1-6 bytes at a time, 1 incoming message at one of 12 moments"),
            stage("c16_garbage", "between two messages: 0-5 arbitrary bytes with their length", covers=[1, 2]),
            deep("c16_deep", "3 incoming messages in 4 pieces that end anywhere, up to 3 outgoing messages", covers=[1, 2]),
        ],
        "assumptions": ["the stream itself is reliable, as TCP is; the encrypted transport below it is not part of the check"],
    },
    "C17": {
        "bin": "c17",
        "stages": [
            stage("c17_changes", "2 daemons at rest, 1 change of 7 kinds on either side, 0-5 steps of its tasks before and 0-2 exchanges of messages after it; 2 orders of polling"),
            stage("c17_first", "the same before the daemons have come to rest"),
            stage("c17_connecting", "1 change at one of 6 moments while the daemons connect"),
            stage("c17_two", "2 changes of 7 kinds on either side, 0-2 exchanges of messages after each"),
            stage("c17_many", "2-4 changes on one side, 0-2 steps of its tasks after each"),
            stage("c17_three", "3 daemons, 1 change on any of them"),
            deep("c17_two_fine", "2 changes on either side, 0-2 steps of its tasks after each"),
            deep("c17_three2", "3 daemons, 2 changes"),
            deep("c17_deep", "3 changes of 7 kinds on either side"),
        ],
        "assumptions": ["the tasks of a daemon run on one thread; their steps are interleaved as its scheduler does"],
    },
    "C18": {
        "bin": "c18",
        "stages": [
            stage("c18_edit", "2 daemons with an editor each that has the file open; 3 of: an edit (insert at either end, delete), an editor takes in its messages, a message is passed on"),
            stage("c18_open", "the same with 4 of: edit, pass on, open or close"),
            stage("c18_create", "4 of: pass on a message, an editor creates and edits a second file or closes it"),
            stage("c18_disk", "1 editor; 4 of: pass on, open or close, another program changes or removes the file on either side"),
            stage("c18_rounds", "3 editors type at once, then messages are passed on in any direction"),
            stage("c18_text", "a file starting with a special character (as in C04), an editor on either side inserts or replaces with one"),
            stage("c18_name", "a file whose name has a special character at its beginning or end, edited on either side"),
            stage("c18_all", "2 of all 7 kinds of actions"),
            deep("c18_edit4", "as c18_edit with 4 actions"),
            deep("c18_rounds_deep", "2 rounds of 2 editors"),
            deep("c18_deep", "4 of edit, take in, pass on, open or close"),
            deep("c18_deep_all", "3 editors, 3 of all 7 kinds of actions"),
        ],
        "assumptions": ["the connection between the daemons delivers messages in order (C16, C17); an editor no longer has a file open that its daemon was told is removed"],
    },
    "C19": {
        "bin": "c19",
        "stages": [
            stage("c19_below", "every URI of 5 further characters (path characters) below the directory", covers=[1, 2, 3]),
            stage("c19_any", "every URI of 4 further bytes after the directory's name", covers=[1, 2, 3]),
            stage("c19_path", "every URI of 7 path characters", covers=[1, 2, 3]),
            stage("c19_scheme", "every string of short length as the scheme", covers=[1, 2, 3]),
            stage("c19_names", "names with characters of 1-4 bytes", covers=[1, 3]),
            deep("c19_deep", "every URI of 7 further bytes after the directory's name", covers=[1, 2, 3]),
        ],
    },
    "C20": {
        "bin": "c20",
        "stages": [
            stage("c20_content", "1 file of 0-3 arbitrary bytes; 6 combinations of host or joining, initialise or not, persisted state or not"),
            stage("c20_one", "1 of 17 things in the directory (files in directories, ignored, hidden, with odd names or content, symbolic links, empty directories) with 0-2 arbitrary letters; 8 combinations", covers=[1, 2]),
            stage("c20_two", "2 of the 17 things; 4 combinations"),
            stage("c20_three", "3 of 7 things; host or joining"),
            deep("c20_content4", "1 file of 0-4 arbitrary bytes; host or joining"),
            deep("c20_deep", "3 of the 17 things; 8 combinations"),
        ],
        "assumptions": ["symbolic links are no files; a joining daemon told to initialise is contradictory, and only has to start without touching the directory"],
    },
}
