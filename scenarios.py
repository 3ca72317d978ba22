"""Which scenarios decide which property, and within which bounds."""


def S(idx, what, quick, thorough=None, **kw):
    d = dict(idx=idx, what=what, quick=quick, thorough=thorough or quick)
    d.update(kw)
    return d


TEXT = ("characters are drawn from classes (printable ASCII, newline, two-byte letters, combining marks, four-byte emoji, carriage return); "
        "the class is a path choice, the byte within the class stays symbolic")

PROPS = {
    "T01": dict(
        scenarios=[
            S(100, "edits on a fresh text against a reference string",
              [(2, "a text of at most 3 ASCII characters or none, then 2 edits inserting at most 2 characters, all offsets")],
              [(3, "a text of at most 3 ASCII characters or none, then 3 edits inserting at most 2 characters, all offsets")],
              covers=["insert", "append", "delete", "replace"]),
            S(101, "edits on a text of several pieces",
              [(1, "a text of 5 pieces and 12 characters, then 1 edit")],
              [(2, "a text of 5 pieces and 12 characters, then 2 edits")],
              covers=["insert", "append", "delete", "replace"]),
            S(102, "many small insertions, then an edit which packs them",
              [(7, "7 insertions, each at the start, middle or end, then any deletion and an append")],
              [(8, "8 insertions, each at the start, middle or end, then any deletion and an append")],
              covers=["packed"]),
            S(103, "a text split by insertions, some deleted again, then packed",
              [(11, "11 insertions into 12 characters, any subset deleted, then an insertion anywhere")],
              [(14, "14 insertions into 15 characters, any subset deleted, then an insertion anywhere")],
              covers=["packed"]),
        ],
        outside="longer edit sequences, longer texts; multibyte text is covered by T02 and T03",
    ),
    "T02": dict(
        scenarios=[
            S(200, "lines of a fresh text", [(3, "texts of at most 3 characters of all classes")], [(4, "texts of at most 4 characters of all classes")],
              covers=["line", "no line", "range"]),
            S(201, "lines of a text after an edit", [(2, "texts of at most 2 characters, then an insertion, deletion or replacement")],
              [(3, "texts of at most 3 characters, then an insertion, deletion or replacement")],
              covers=["insert", "delete", "replace"]),
        ],
        outside="longer texts and lines",
        assumptions=[TEXT],
    ),
    "T03": dict(
        scenarios=[
            S(300, "offsets, coordinates and characters", [(3, "texts of at most 3 characters, all offsets and coordinates")],
              [(4, "texts of at most 4 characters, all offsets and coordinates")], covers=["coordinates"]),
            S(701, "iteration over all positions", [(4, "texts of at most 4 characters")], [(5, "texts of at most 5 characters")], covers=["iterated"]),
        ],
        outside="longer texts; graphemes made of more than combining marks (flags, ZWJ sequences, Hangul)",
        assumptions=[TEXT],
    ),
    "T04": dict(
        scenarios=[
            S(400, "any history of edits, undos and redos", [(31, "texts of at most 1 character, 3 steps")], [(41, "texts of at most 1 character, 4 steps"), (32, "texts of at most 2 characters, 3 steps")],
              covers=["insert", "delete", "replace", "undo", "redo"]),
            S(401, "edits, then all undone, then all redone", [(2, "2 edits of a text of 2 characters")], [(3, "3 edits of a text of 2 characters")],
              covers=["undo", "redo", "diff"]),
        ],
        outside="longer histories and texts",
        assumptions=[TEXT],
    ),
    "T05": dict(
        scenarios=[
            S(500, "a new text applied to a fresh one", [(33, "texts of at most 3 characters each")], [(34, "texts of at most 3 and 4 characters"), (43, "texts of at most 4 and 3 characters")], covers=["diff", "edited"]),
            S(501, "new texts applied after an edit", [(12, "texts of at most 1 character, an edit, then texts of at most 2 and 1 characters")],
              [(22, "texts of at most 2 characters, an edit, then texts of at most 2 and 1 characters")], covers=["diff", "insert", "delete", "replace"]),
        ],
        outside="longer texts (the diff of the dissimilar crate works on the whole strings)",
        assumptions=[TEXT],
    ),
    "T06": dict(
        scenarios=[
            S(600, "opening a file", [(3, "files of at most 3 characters of all classes")], [(4, "files of at most 4 characters of all classes")], covers=["opened", "relative"]),
            S(601, "loading a changed file again", [(22, "files of at most 2 characters, optionally an edit in between")], [(23, "files of at most 2, then 3 characters, optionally an edit in between")],
              covers=["edited", "reloaded"]),
            S(602, "files which cannot be read", [(3, "files of at most 3 arbitrary bytes")], [(4, "files of at most 4 arbitrary bytes")], covers=["missing", "text", "no text", "scratch"]),
        ],
        outside="longer files; I/O errors other than a missing file; clocks which go backwards; changes within the clock's resolution",
        assumptions=[TEXT],
    ),
    "T07": dict(
        scenarios=[
            S(700, "moves over a text", [(23, "texts of at most 3 characters, any position, 2 moves")],
              [(24, "texts of at most 4 characters, any position, 2 moves"), (33, "texts of at most 3 characters, any position, 3 moves")], covers=["moved"]),
            S(702, "moves over lines of all shapes", [(32, "3 lines of 7 shapes, any position, 2 moves")], [(42, "4 lines of 7 shapes, any position, 2 moves"), (33, "3 lines of 7 shapes, any position, 3 moves")], covers=["moved"]),
        ],
        outside="longer texts and sequences of moves",
        assumptions=[TEXT],
    ),
    "E01": dict(
        scenarios=[
            S(1010, "one client deletes its selection, two others watch", [(2, "texts of at most 2 characters, any selections of three clients"), (12, "the same, then the other client moves")],
              [(3, "texts of at most 3 characters, any selections of three clients"), (13, "the same, then the other client moves")], covers=["deleted", "emptied", "moved"]),
            S(1011, "deletions in two buffers at once, repeated", [(11, "two texts of at most 1 character, 2 deletions"), (12, "two texts of at most 2 characters and 1, 2 deletions")],
              [(22, "two texts of at most 2 characters, 2 deletions"), (32, "two texts of at most 3 and 2 characters")], covers=["deleted"]),
        ],
        outside="longer texts, more than three clients",
        assumptions=[TEXT],
    ),
    "E02": dict(
        scenarios=[
            S(1020, "moves of a client, extending its selection or not", [(12, "texts of at most 2 characters, any selection, 1 move"), (22, "texts of at most 2 characters, any selection, 2 moves"), (322, "3 lines of at most 2 characters, 2 moves")],
              [(23, "texts of at most 3 characters, any selection, 2 moves"), (32, "texts of at most 2 characters, any selection, 3 moves"), (323, "3 lines of at most 3 characters, 2 moves"), (332, "3 lines of at most 2 characters, 3 moves")], covers=["moved", "extended"]),
            S(1021, "moves in a view of two buffers", [(22, "two texts of at most 2 characters, any move")], [(32, "two texts of at most 3 and 2 characters, any move")], covers=["moved"]),
        ],
        outside="longer texts and sequences of moves",
        assumptions=[TEXT],
    ),
    "E03": dict(
        scenarios=[
            S(1030, "the lines and highlights a client is shown", [(3, "texts of at most 3 characters, any selection"), (22, "views of two buffers of at most 2 characters, any selections"),
              (23, "views of two buffers of at most 3 characters, any selections"), (43, "views of four buffers")],
              [(4, "texts of at most 4 characters, any selection"), (23, "views of two buffers of at most 3 characters, any selections")], covers=["shown", "two buffers"]),
            S(1031, "views of parts of a buffer", [(22, "texts of at most 2 characters cut in at most 2 parts"), (33, "texts of at most 3 characters cut in at most 3 parts"), (222, "parts of three buffers, one of them of at most 2 characters")],
              [(24, "texts of at most 4 characters cut in at most 2 parts"), (322, "parts of four buffers"), (233, "parts of three buffers, one of them of at most 3 characters")], covers=["shown", "several lenses"]),
        ],
        outside="longer texts; how a front end draws the lines",
        assumptions=[TEXT],
    ),
    "E04": dict(
        scenarios=[
            S(1000, "the first client", [(0, "a new editor")], covers=["started"]),
            S(1040, "any history of edits, views, selections and clients", [(22, "2 buffer names, 2 steps, all operations"), (33, "3 buffer names, 3 steps, all operations"),
              (133, "two clients showing a buffer each, 3 buffer names, 3 steps, selections and hidden buffers"), (232, "the same with 2 steps and 2 orders of the maps"),
              (832, "buffers whose clients have left, 3 buffer names, 2 steps, 3 orders of the maps")],
              [(33, "3 buffer names, 3 steps, all operations"), (24, "2 buffer names, 4 steps, all operations"),
               (233, "two clients showing a buffer each, 3 buffer names, 3 steps, 2 orders of the maps"), (833, "buffers whose clients have left, 3 buffer names, 3 steps, 3 orders of the maps")],
              covers=["edit", "view", "view of a buffer", "add", "remove", "emptied", "delete", "join", "leave", "select", "hidden", "first"]),
        ],
        outside="longer histories, more clients; buffer names containing the separators of view keys",
    ),
    "E05": dict(
        scenarios=[
            S(1100, "arbitrary lines sent to the server", [(2, "any line of at most 2 bytes")], [(3, "any line of at most 3 bytes")], covers=["refused"]),
            S(1101, "requests of any method with any parameters", [(1, "1 request, parameters of all kinds, known and unknown clients"), (11, "the same with any identifier")],
              [(2, "2 requests, parameters of all kinds, known and unknown clients"), (11, "1 request with any identifier")],
              covers=["edit", "menu", "menu-select", "keys", "exec", "quit", "absent"]),
            S(1102, "requests with one byte replaced", [(k, "request %d with any byte at any place" % k) for k in range(5)], covers=["done", "refused"]),
        ],
        outside="longer garbage; scripts other than those of a pool (Lua runs in the encoding, but scripts are not symbolic)",
    ),
    "E06": dict(
        scenarios=[
            S(1111, "who is told about changes of a buffer", [(0, "three clients showing any of the views, any change"), (10, "the same with a view of two buffers")],
              covers=["append", "scratch", "reloaded", "deleted", "moved", "two buffers"]),
            S(1010, "a deletion is told to all who show the buffer", [(2, "texts of at most 2 characters, any selections of three clients")],
              [(3, "texts of at most 3 characters, any selections of three clients")], covers=["deleted"]),
            S(1040, "changes of views and buffers are told to all who are concerned", [(22, "2 buffer names, 2 steps, all operations"), (13, "1 buffer name, 3 steps")],
              [(33, "3 buffer names, 3 steps, all operations")], covers=["edit", "view", "delete", "join"]),
            S(1021, "moves in a view of two buffers, of which only some lead anywhere", [(22, "two texts of at most 2 characters, any 2 moves")], [(32, "two texts of at most 2 characters, any 3 moves")], covers=["moved"]),
        ],
        outside="longer histories, more than three clients",
    ),
    "E07": dict(
        scenarios=[
            S(1200, "one entry searched for any words", [(22, "an entry and words of at most 2 characters"), (23, "an entry of at most 3 characters, words of 2")],
              [(32, "an entry of at most 2 characters, words of 3"), (23, "an entry of at most 3 characters, words of 2")], covers=["match", "no match"]),
            S(1201, "several entries searched for any words", [(22, "2 entries of at most 2 characters"), (32, "3 entries of at most 2 characters")],
              [(23, "2 entries of at most 3 characters"), (33, "3 entries of at most 3 characters")], covers=["match", "no match"]),
            S(1202, "entries with words far apart, searched for one or more of them", [(223, "2 entries of 3 words, at most 2 characters apart")],
              [(233, "2 entries of 3 words, at most 3 characters apart"), (224, "2 entries of 4 words, at most 2 characters apart"), (313, "3 entries of 3 words, at most 1 character apart")], covers=["match"]),
            S(1210, "the menu of the commands", [(2, "searches of 2 characters")], [(3, "searches of 3 characters")], covers=["shown", "nothing"]),
        ],
        outside="longer entries; folding of letters beyond Latin-1",
    ),
    "E08": dict(
        scenarios=[
            S(1220, "what the menus list", [(2, "after any 2 changes of views")], [(3, "after any 3 changes of views")], covers=["asked before", "view_select", "view_add", "view_remove"]),
            S(1221, "what choosing does", [(1, "after any change of views"), (2, "after any 2 changes of views")], [(3, "after any 3 changes of views")],
              covers=["menu", "quit", "view_delete", "view_select", "view_add", "view_remove", "hidden", "scratch", "exec"]),
        ],
        outside="the menu of files (walks the file system); scripts other than those of a pool",
    ),
    "E09": dict(
        scenarios=[
            S(1120, "what a client does on its side, seen from another", [(1, "any 1 request"), (2, "any 2 requests")], [(3, "any 3 requests")], covers=["done"]),
        ],
        outside="longer sequences, other buffers and scripts",
    ),
    "E10": dict(
        scenarios=[
            S(1110, "messages and errors", [(2, "texts of at most 2 characters"), (3, "texts of at most 3 characters"), (21, "two messages of at most 1 character")],
              [(22, "two messages of at most 2 characters"), (3, "texts of at most 3 characters")], covers=["message", "error"]),
        ],
        outside="longer messages",
        assumptions=[TEXT],
    ),
    "E11": dict(
        scenarios=[
            S(1130, "keys in any mode", [(2, "2 keys on any text of at most 1 character"), (103, "3 keys on a fixed text"), (1193, "3 keys of two clients, 9 keys")],
              [(2, "2 keys on any text of at most 1 character"), (1103, "3 keys of two clients, all keys"), (1194, "4 keys of two clients, 9 keys"), (195, "5 keys, 9 keys")], covers=["hint", "goto", "cancelled", "deleted", "left"]),
            S(1131, "the status line of sessions of any name", [(1, "session names of 1 character"), (13, "session names of at most 3 characters")],
              [(14, "session names of at most 4 characters")], covers=["info"]),
        ],
        outside="longer sequences of keys; other key bindings (they are not configurable)",
        assumptions=[TEXT],
    ),
    "E12": dict(
        scenarios=[
            S(1230, "the menu of files", [(4, "any of 4 files in 3 directories, a hidden one among them")], [(6, "any of 6 files in 4 directories, hidden ones among them")], covers=["asked before", "opened", "gone", "no file"]),
        ],
        outside="what ignore files say, which the ignore crate decides; links and other special files; names that are no text",
    ),
    "L01": dict(
        scenarios=[
            S(1300, "what scripts are told about a client", [(3, "texts of at most 3 characters, any selection"), (12, "a view of two buffers of at most 2 and 1 characters, any selections")],
              [(4, "texts of at most 4 characters, any selection"), (22, "a view of two buffers of at most 2 characters, any selections")], covers=["told", "two buffers"]),
            S(1320, "calls of any function with any arguments", [(1, "1 argument of 12 kinds"), (2, "2 arguments of 12 kinds")], [(0, "no argument"), (1, "1 argument of 12 kinds"), (2, "2 arguments of 12 kinds"), (3, "3 arguments of 12 kinds")],
              covers=["done", "failed"]),
        ],
        outside="longer texts; scripts which do not end; what scripts do with the rest of Lua (files, processes)",
        assumptions=["the characters of texts told to scripts are fixed representatives of each width, as Lua hashes strings; arguments of calls are of a fixed pool of values of all types"],
    ),
    "L02": dict(
        scenarios=[
            S(1310, "hints", [(22, "at most 2 lines of 41 to 43 characters"), (122, "the same, shown twice"), (31, "at most 3 lines of 41 or 42 characters")], [(23, "at most 2 lines of 41 to 44 characters"), (32, "at most 3 lines of 41 to 43 characters")],
              covers=["framed", "plain"]),
        ],
        outside="characters which take no or two columns in a terminal; lines of less than 41 characters but the fixed hints of E11 (Lua hashes shorter strings)",
    ),
    "L03": dict(
        scenarios=[
            S(1330, "files of scripts", [(3, "at most 3 scripts of 8 kinds"), (11, "a script on its own")], [(4, "at most 4 scripts of 8 kinds"), (13, "at most 3 scripts, or one on its own")],
              covers=["script", "order", "error", "error of the editor", "no script", "no text", "missing", "empty", "run", "failed"]),
        ],
        outside="a script read from the standard input; what later scripts would have done after one which fails",
    ),
    "R01": dict(
        scenarios=[
            S(2000, "requests", [(2, "identifiers, methods and parameters of at most 2 characters of all kinds")], [(3, "identifiers, methods and parameters of at most 3 characters of all kinds")], covers=["request"],),
            S(2001, "responses and errors", [(2, "identifiers, results, error messages and data of at most 2 characters")], [(3, "identifiers, results, error messages and data of at most 3 characters")],
              covers=["response", "error", "changed"]),
            S(2002, "notifications", [(1, "all notifications, texts of at most 1 character")], [(2, "all notifications, texts of at most 2 characters")],
              covers=["echo", "hint", "info", "menu", "status", "view"]),
        ],
        outside="longer texts (what JSON treats specially is a single character)",
        assumptions=["characters: control characters, ASCII, two-, three- and four-byte characters, line separators included"],
        budget={"thorough": 6000},
    ),
    "R02": dict(
        scenarios=[
            S(2010, "keys as they are written", [(1, "all modifiers, all special keys, characters of four ranges")], covers=["key"]),
            S(2011, "keys as they are typed", [(1, "ASCII, Latin and emoji characters")], covers=["typed"]),
        ],
        outside="characters beyond the ranges ASCII, U+A1-U+24F, U+1F600-U+1F64F",
    ),
    "R03": dict(
        scenarios=[
            S(2020, "any name", [(4, "names of at most 4 characters")], [(5, "names of at most 5 characters")], covers=["address", "socket"]),
            S(2021, "names which look like addresses", [(22, "an octet and a port of at most 2 digits, or a port above 65500"), (33, "an octet and a port of at most 3 digits"), (134, "an octet of at most 3 digits and a port of at most 4, not displayed")],
              [(34, "an octet of at most 3 digits and a port of at most 4"), (135, "an octet of at most 3 digits and a port of at most 5, not displayed")], covers=["address", "socket"]),
        ],
        outside="names with a slash; IPv6 addresses",
    ),
    "R04": dict(
        scenarios=[
            S(2030, "what a client knows after any notifications", [(22, "2 messages, texts of at most 2 characters"), (13, "3 messages, texts of at most 1 character")],
              [(23, "3 messages, texts of at most 2 characters"), (14, "4 messages, texts of at most 1 character")], covers=["event", "ignored"]),
        ],
        outside="longer histories",
    ),
    "R05": dict(
        scenarios=[
            S(2040, "any use of a menu", [(34, "at most 2 entries, 4 steps"), (43, "at most 3 entries, 3 steps")], [(45, "at most 3 entries, 5 steps")], covers=["chosen", "nothing"]),
        ],
        outside="larger menus, longer sequences",
    ),
    "R06": dict(
        scenarios=[
            S(2050, "commands of a client", [(13, "3 commands, texts of at most 1 character"), (22, "2 commands, texts of at most 2 characters"), (312, "2 commands after 300 others")], [(14, "4 commands, texts of at most 1 character"), (1012, "2 commands after 1000 others")],
              covers=["quit", "edit", "menu", "keys", "exec"]),
        ],
        outside="longer texts and sequences",
    ),
    "R07": dict(
        scenarios=[
            S(4020, "a front end whose server writes anything and goes away", [(3, "at most 3 steps")], [(4, "at most 4 steps")],
              covers=["message", "no event", "cut line", "no text", "deaf", "cut off", "left"]),
        ],
        outside="the operating system's sockets, which are replaced by streams in memory",
    ),
    "S01": dict(
        scenarios=[
            S(4000, "clients which join, ask, break and leave while the server runs in parts",
              [(22, "2 clients, 2 steps, each followed by any task of the server or by all until rest, any bytes"), (112, "1 client, 2 steps, one byte written at a time, any bytes"), (1113, "1 client, 3 steps, one byte written at a time"),
               (2023, "2 clients, 3 steps, the server at rest or not between them"), (2014, "1 client, 4 steps, the server at rest or not between them")],
              [(123, "2 clients, 3 steps, each followed by any task of the server or by all until rest, any bytes"), (1114, "1 client, 4 steps, one byte written at a time"), (2034, "3 clients, 4 steps, the server at rest or not between them")],
              covers=["request", "request after quit", "no request", "cut", "no text", "left", "deaf", "no client"]),
        ],
        outside="the operating system's sockets and their blocking: a client which does not read while its socket is full stalls the server",
        budget={"thorough": 6000},
    ),
    "S02": dict(
        scenarios=[
            S(4010, "front ends which change the same buffers through a server",
              [(1122, "2 front ends, 2 steps, 3 bytes written at a time, 2 orders of tasks"), (10022, "2 front ends, 2 steps, and a client the server can not write to"), (2132, "3 front ends, 2 steps, 4 orders of tasks"), (13, "1 front end, 3 steps")],
              [(1123, "2 front ends, 3 steps, 3 bytes written at a time, 2 orders of tasks"), (10023, "2 front ends, 3 steps, and a client the server can not write to"), (33, "3 front ends, 3 steps")],
              covers=["letter", "other buffer", "delete", "quit", "left", "shown", "told", "deaf"]),
        ],
        outside="the operating system's sockets; longer histories",
        budget={"thorough": 6000},
    ),
    "S03": dict(
        scenarios=[
            S(4040, "sessions before and after a server", [(2, "any of 2 other sessions, one or two clients leaving in any way")], [(3, "any of 3 other sessions, one or two clients leaving in any way"), (13, "the same, with a first client which stops listening and clients which fail to connect")], covers=["address", "socket", "last", "others", "taken"]),
        ],
        outside="servers which are killed; sockets removed by someone else while their server runs",
    ),
    "S04": dict(
        scenarios=[
            S(4050, "a session and the server started for it", [(3, "what a server prints in at most 3 parts"), (11, "names with any printable character")], [(4, "what a server prints in at most 4 parts"), (13, "names with any printable character, at most 3 parts")],
              covers=["program", "there", "no program", "ready", "not ready"]),
        ],
        outside="the operating system's processes and pipes; session names with slashes, empty, `.` or `..`; a socket left by a server which was killed; servers which close their output without ending",
    ),
    "C01": dict(
        scenarios=[
            S(4030, "lines typed and written in any order", [(4, "at most 4 steps"), (14, "at most 4 steps, 7 bytes written at a time")], [(5, "at most 5 steps"), (15, "at most 5 steps, 7 bytes written at a time")],
              covers=["no server", "request", "no request", "no text", "input ended", "input failed", "message", "no message", "reset", "end"]),
        ],
        outside="the standard streams of the operating system, which are replaced by streams in memory (what is written is seen once flushed)",
    ),
    "C02": dict(
        scenarios=[
            S(4300, "lines typed, and threads of which any runs next", [(1, "at most 1 line, files to open"), (12, "at most 2 lines")], [(2, "at most 2 lines, files to open"), (13, "at most 3 lines of 2 kinds")],
              covers=["edit", "exec", "unknown", "no request", "no text", "empty", "no input any more", "end"]),
        ],
        outside="the standard streams of the operating system; more than 100 notifications which wait to be written; threads overtaken elsewhere than where they wait, type or show",
    ),
    "F01": dict(
        scenarios=[
            S(3000, "events as C structures", [(2, "texts of at most 2 characters of all kinds, at most 2 items")], covers=["error", "noop", "echo", "hint", "info", "menu", "status", "view"]),
            S(3001, "the last error", [(14, "messages of 1 character, 4 steps"), (23, "messages of at most 2 characters, 3 steps")], [(24, "messages of at most 2 characters, 4 steps"), (33, "messages of at most 3 characters, 3 steps")],
              covers=["error", "copied", "too small"]),
        ],
        outside="what frees a structure twice or uses it after that is the caller's",
    ),
    "F03": dict(
        scenarios=[
            S(4310, "a server which says anything, and threads of which any runs next", [(2, "at most 2 things said"), (11, "at most 1 thing said, 1 time nothing within the limit"), (12, "at most 2 things said, 1 time nothing within the limit")],
              [(22, "at most 2 things said, 2 times nothing within the limit")],
              covers=["message", "two messages", "another message", "no event", "left", "nothing yet", "no session", "heard all"]),
        ],
        outside="how long the time limit is; std::sync::mpsc, which is replaced by a queue; threads overtaken elsewhere than where they wait or send",
    ),
    "F02": dict(
        scenarios=[
            S(3010, "functions generated from any configuration", [(21, "2 structures, names of 1 or 2 letters"), (12, "1 structure, names of at most 3 letters")], [(22, "2 structures, names of at most 3 letters")], covers=["generated"]),
        ],
        outside="configurations of more structures",
    ),
    "D01": dict(
        scenarios=[
            S(4200, "views, drawn and drawn again in another size", [(1143, "1 buffer of 1 line, screens of 1 to 3 and 8 to 10 columns and 1 to 4 rows"), (1245, "2 buffers of 1 line, screens of 1 to 5 and 8 to 12 columns and 1 to 4 rows")],
              [(2143, "1 buffer of 2 lines"), (1245, "2 buffers of 1 line, screens of 1 to 5 and 8 to 12 columns and 1 to 4 rows")], covers=["header", "header cut", "view cut", "drawn"]),
            S(4201, "messages and status", [(24, "at most 4 columns, a message and 2 items of at most 2 characters"), (33, "at most 3 columns, texts of at most 3 characters")], [(42, "at most 2 columns, texts of at most 4 characters"), (36, "at most 6 columns, texts of at most 3 characters")],
              covers=["status", "status cut", "message cut"]),
            S(4202, "menus, moved in and drawn in another size", [(1333, "at most 3 entries, 1 step"), (2333, "at most 3 entries, 2 steps")], [(3333, "at most 3 entries, 3 steps"), (3445, "at most 4 entries of at most 4 characters, 3 steps")],
              covers=["selected", "menu cut"]),
            S(4203, "hints", [(34, "at most 3 lines, screens of at most 4 columns and 4 rows")], [(45, "at most 4 lines, screens of at most 5 columns and 5 rows")], covers=["hint", "hint cut"]),
        ],
        outside="control characters and those which take no or two columns in a terminal; a screen without rows or columns; larger screens and longer texts; the terminal itself, whose part is played by a model of the sequences used; "
                "the event loop (Term::start), which is D03's",
    ),
    "D02": dict(
        scenarios=[
            S(4210, "a key with any modifiers", [(0, "no menu"), (1, "a menu of at most 2 entries")], covers=["key", "open", "commands", "views", "exit", "nothing"]),
            S(4211, "errors of the front end, shown by its server", [(2, "at most 2 characters")], [(3, "at most 3 characters")], covers=["shown"]),
        ],
        outside="the keys ctrl-x, ctrl-d and ctrl-e, with which its developers try it; mice; the event loop (Term::start)",
    ),
    "D03": dict(
        scenarios=[
            S(4220, "a front end, its terminal and its server",
              [(1013, "3 events, menus and their keys among them"), (22, "2 times at most 2 events at once"), (112, "2 events, the stream takes 9 bytes at a time")],
              [(1014, "4 events, menus and their keys among them"), (1022, "2 times at most 2 events at once, menus among them"), (1122, "the same, the stream takes 9 bytes at a time"), (31, "at most 3 events at once")],
              covers=["key", "searched", "view", "message", "status", "no message", "other message", "resized", "no event", "left", "server left", "menu", "menu left", "end"]),
        ],
        outside="hints; mice; screens of 1 and 12 columns and 4 lines; a menu which arrives together with a key; keys typed together with the one to leave may not be sent; "
                "LocalExecutor and block_on wake tasks as polled here, not by another thread",
    ),
    "U01": dict(
        scenarios=[S(4100, "maps against the keys in the order of use", [(35, "3 keys, 5 operations")], [(36, "3 keys, 6 operations"), (45, "4 keys, 5 operations")], covers=["insert", "remove", "use", "change"])],
        outside="more keys, longer histories",
    ),
    "U02": dict(
        scenarios=[
            S(4110, "short names of files", [(243, "at most 3 files, paths of at most 4 components of 2 names"), (133, "at most 3 files, paths of at most 3 components, one name the start of the other"), (1233, "a scratch buffer among the files")],
              [(244, "at most 4 files, paths of at most 4 components of 2 names"), (143, "at most 3 files, paths of at most 4 components, one name the start of the other"), (1333, "a scratch buffer among the files, 3 names")],
              covers=["longer", "end of another", "named", "scratch"]),
        ],
        outside="more files and deeper paths; relative paths (buffers of files have absolute ones)",
    ),
}
