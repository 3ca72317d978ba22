"""The properties. gen.py writes them to properties.jsonl."""


def P(id, title, statement, over, text, why, files, mechanism, **kw):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism]}
    if "state" in kw:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in kw["state"]]
    if "observe" in kw:
        a["observe_at"] = kw["observe"]
    a["hook_needed"] = kw.get("hook")
    return {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a}


PT = "core/src/editor/piece_table/mod.rs"
BUF = "core/src/editor/buffer.rs"
CORE = "core/src/editor/core.rs"

ALL = [
    P("T01", "A buffer's text after any edits is what the edits say",
      "Whatever sequence of insertions, appends, deletions and replacements is applied to a text, its content is the one obtained by applying the same edits to a plain string. "
      "Its length and the text of any range agree with that content.",
      ["histories", "inputs"], "all initial texts, all sequences of edits at all offsets, with all inserted texts",
      "Unit tests apply a dozen fixed edits; errors in splitting, truncating, shifting or merging fragments need particular fragment boundaries and edit sequences.",
      [PT, "core/src/editor/range.rs"],
      [("pieces sorted by offset in a tree, split and truncated by edits", "PieceTable::insert, delete, Piece::split, truncate"),
       ("merging of consecutive pieces at each commit", "PieceTable::commit, Consecutive for Piece")],
      state=[("pieces", "fragments of the original and added texts, in order", "PieceTable.pieces")], observe=["PieceTable::text", "PieceTable::len", "PieceTable::text_range"],
      hook="the table is private: re-exported under cfg(ced_verif)"),
    P("T02", "Line access agrees with the text",
      "After any edits, the number of lines, the text and length of each line, the list of all lines, the lines between two positions and the longest line are those of the whole text split at its newlines. "
      "Asking for a line that does not exist gives nothing.",
      ["histories", "inputs"], "all texts, multibyte characters, combining marks, empty lines and missing final newlines included, after any edits; all line numbers and pairs of positions",
      "Tests check a few ASCII texts; the index of newlines is maintained incrementally and may drift from the text after any particular edit.",
      [PT], [("index of newline offsets shifted by every edit", "PieceTable::insert, append, delete"), ("lines cut out between two newlines", "PieceTable::line_bytes")],
      state=[("newlines", "offsets of the newlines", "PieceTable.newlines")], observe=["PieceTable::line_text", "line_count", "line_length", "lines", "lines_range", "longest_line"],
      hook="re-exported under cfg(ced_verif)"),
    P("T03", "Offsets and line/column coordinates correspond exactly",
      "The coordinates of an offset are its line and the 1-based rank on that line of the user-perceived character it falls on, the newline counting as the last one; coordinates convert back to the offset where that character starts, and to nothing when they lie outside the text. "
      "The character found at coordinates or at an offset is the one the text has there, and iterating over positions visits every one of them once, in order.",
      ["inputs"], "all texts with characters of any width and combining marks; all offsets and coordinates, inside and outside the text",
      "Tests check a handful of coordinates of two texts; errors appear only with particular mixes of widths, marks, empty lines and text ends.",
      [PT, "core/src/editor/piece_table/position.rs"],
      [("conversion through the newline index and the graphemes of a line", "PieceTable::offset_to_coord, coord_to_offset"), ("position iterator", "PositionIterator")],
      observe=["PieceTable::offset_to_coord", "coord_to_offset", "char_at", "char_at_offset", "max_coord"], hook="re-exported under cfg(ced_verif)"),
    P("T04", "Undo and redo restore exactly the earlier and later texts",
      "Undoing returns to the text, with its lines, as it was before the last step, and redoing returns to the text after it, however often either is repeated and whatever edits happen in between; there is nothing to undo before the first edit and nothing to redo after a new one. "
      "Consecutive insertions make one step, as do consecutive deletions; a replacement or the application of a new text is one step of its own.",
      ["histories"], "all histories of edits, undos and redos over all texts",
      "One test walks a single history; the saved states share structure with the live one, so corruption needs a particular interleaving of edits, undos and redos.",
      [PT], [("snapshots of pieces and newlines taken when a step begins", "PieceTable::action, commit, undo, redo")],
      state=[("undos, redos", "saved states", "PieceTable.undos, redos")], observe=["PieceTable::text", "PieceTable::line_text"], hook="verif_undo, verif_redo under cfg(ced_verif)"),
    P("T05", "Applying a new text yields exactly that text",
      "When the content of a buffer is brought up to date with a new text by difference, the result is the new text, with the right lines, whatever both texts are and however the old one was edited before. "
      "This is one step to undo.",
      ["inputs", "histories"], "all pairs of texts, characters of several bytes included, and all earlier edits",
      "Tests apply two fixed diffs; the differences are computed in characters and applied in bytes, so errors need particular multibyte neighbourhoods.",
      ["core/src/editor/diff.rs", PT], [("diff in terms of byte lengths", "diff::diff"), ("application of the chunks", "PieceTable::apply_diff")],
      observe=["PieceTable::text"], hook="re-exported under cfg(ced_verif)"),
    P("T06", "A file's buffer holds the file, and never loses it on errors",
      "Opening a file gives a buffer with exactly the content of the file, completed by a final newline when it lacks one; reloading after the file has changed brings the buffer to the new content, and leaves it alone, edits included, when the file has not changed. "
      "A file that is missing or is not valid text is reported as an error, and an open buffer keeps its content.",
      ["inputs", "fault_sequences", "histories"], "all file contents, arbitrary bytes included, relative and absolute paths, any edit between opening and reloading, files which change or disappear",
      "The only test opens one ASCII file; neither reloading, nor missing or binary files are exercised.",
      [BUF], [("reading with a final newline", "Buffer::read_content, Buffer::open"), ("reload when the file is newer", "Buffer::is_synced, load_from_disk")],
      state=[("last_sync", "when the file was last read", "Buffer.last_sync")], observe=["Buffer::open", "Buffer::load_from_disk", "Buffer::to_string"]),
    P("T07", "Cursor moves always land on the right existing character",
      "Moving left, right, up, down, to the start or end of the line or of the text goes to the neighbouring character, line or end that the move names, never outside the text nor inside a character. "
      "Vertical moves keep the column they started from, even through shorter lines.",
      ["inputs", "histories"], "all texts, all starting positions and all sequences of moves",
      "Tests walk a three-line ASCII text; lines with wide or combined characters, empty lines and missing final newlines are not reached.",
      ["core/src/editor/piece_table/navigator.rs"], [("navigator with a target column", "Navigator::next, previous, next_line, previous_line, line_end, end, pos")],
      observe=["Navigator::pos"], hook="re-exported under cfg(ced_verif)"),
    P("E01", "Deleting removes exactly the selection and keeps everybody's selection valid",
      "Deleting removes, in every buffer of the client's view, exactly the characters from the first to the last one selected, whole, and returns them; a buffer which becomes empty keeps one newline. "
      "The selections of all clients then lie on existing characters and every client can go on moving from where its cursor is.",
      ["inputs", "histories"], "all texts, all selections of all clients, repeated deletions, any move afterwards",
      "Tests have one client and ASCII text; selections of other clients, multibyte ends and emptied buffers are not covered.",
      [CORE, "core/src/editor/selection.rs", BUF],
      [("removal of the selected range of each buffer", "Core::delete_selection, Buffer::selection_range"), ("selections of all clients fitted to the new text", "Core::fit_selections, Selection::fit_to")],
      state=[("selections", "anchor and cursor of each client in each buffer of each view", "ClientContext.selections")], observe=["Core::delete_selection", "Buffer::to_string"], hook="verif_clients, verif_select under cfg(ced_verif)"),
    P("E02", "Moving a client's cursors follows the text and touches nobody else",
      "Moving a client moves its cursor in every buffer of its view to where the move leads in that text; the anchor follows unless the selection is being extended, in which case it stays. "
      "No text changes and no other client's selection changes.",
      ["inputs", "histories"], "all texts, selections and sequences of moves, extending or not",
      "Tests move one client over one fixed text.",
      [CORE, "core/src/editor/piece_table/navigator.rs"], [("moves of every selection of the current view", "Core::move_cursor")],
      state=[("selections", "anchor, cursor and column to return to", "Selection")], observe=["Core::move_cursor"], hook="verif_clients, verif_select under cfg(ced_verif)"),
    P("E03", "A client is shown its buffers' lines with exactly its selection highlighted",
      "A view lists its buffers in order with the number of their lines, and each lens has exactly the lines of the buffer it is on, from the line it says. "
      "Exactly the characters selected by that client in that buffer are highlighted, the newline of a line shown as a highlighted space, and the text of no line is altered.",
      ["inputs"], "all texts, all selections, views of one or two buffers, whole or in parts",
      "Tests compare a few rendered ASCII lines; multibyte lines, line ends and several lenses are not covered.",
      [CORE, BUF, "core/src/editor/view.rs"], [("lines cut at the ends of the selection", "Buffer::lenses, Core::view notification"), ("views with lenses", "View::to_notification_params")],
      observe=["view notification"], hook="the editor's state under cfg(ced_verif)"),
    P("E04", "Views, buffers and clients stay consistent whatever is opened or closed",
      "Every client always shows an existing view, every view shows existing buffers, and a client has one selection in each buffer of its view; there is always a view and a buffer. "
      "Opening, showing, adding to a view, removing from it, deleting a view, joining and leaving have exactly the documented effect on the views of the clients and on the sets of views and buffers; "
      "they change no text, and the selections of a client in the buffers of a view are where it left them when it comes back.",
      ["histories"], "all histories of operations by several clients over several buffers",
      "Tests do a few operations with one client; deleting a view or buffer shown by others needs particular histories.",
      [CORE, "core/src/editor/view.rs", "core/src/stackmap.rs"], [("views registered by key, in order of use", "Core::change_view, add_to_current_view, remove_from_current_view, delete_current_view, delete_buffer"), ("joining clients get the last view", "Core::add_client")],
      state=[("views", "the views by key", "CoreState.views"), ("clients", "the view and selections of each client", "CoreState.clients")], observe=["view notifications", "Core::edit, view, add_client"], hook="verif_clients, verif_views, verif_buffers under cfg(ced_verif)"),
    P("E05", "Every line sent to the server gets exactly one well-formed answer",
      "Whatever a client sends, it gets one response, with the identifier of its request and either a result or the error that says what was wrong: no request, unknown method, wrong parameters, unknown client, failing script. "
      "Nothing a client sends ends the server or disturbs the other clients, and only a client that quits is removed.",
      ["inputs", "histories"], "arbitrary lines, requests of all methods with parameters of all types, unknown clients",
      "Tests send well-formed requests only; a panic in a handler ends the session of everybody.",
      ["core/src/editor/mod.rs", "core/src/editor/command.rs", "remote/src/jsonrpc.rs", "core/src/script.rs"],
      [("parsing and dispatch", "Editor::handle"), ("errors of the protocol", "Response::invalid_request, method_not_found, invalid_params")],
      observe=["Editor::handle"]),
    P("E06", "Whoever shows what changed is told, and nobody else",
      "After a buffer or a view changes, each client that shows it is sent its own up-to-date view, once, and clients that do not show it are sent nothing; a client that joins is told its view. "
      "This holds whatever the change: script appends and scratch buffers, reloads, deletions, moves, changes of views.",
      ["histories", "inputs"], "all distributions of three clients over views, all kinds of changes, all histories within the bounds",
      "Tests look at the state of the editor, not at who is notified.",
      [CORE, "core/src/server.rs"], [("recipients by shown buffer or view", "Core::clients_with_buffers, clients_with_view, notify_view_update"), ("messages with the clients to notify", "BroadcastMessage")],
      observe=["BroadcastMessage on the broadcast channel"], hook="the editor's state under cfg(ced_verif)"),
    P("E07", "Filtering a menu keeps the matching entries, best first, and marks the match",
      "An entry matches a search when the words of the search are found in it, in order and without overlap, ignoring case; all that matches is kept and nothing else. "
      "Entries are ordered by how close together the words are, then by name, and what is marked in an entry is a place where the words are; its text is unchanged.",
      ["inputs"], "all entries and searches of one to several words",
      "Tests filter a few ASCII words.",
      ["core/src/editor/menu.rs"], [("fuzzy matching", "menu::filter, Tokenizer"), ("menus filtered by the search", "Menu::to_notification_params, filtered")],
      observe=["menu notification"], hook="none: the functions are public"),
    P("E08", "Menus list what there is, and choosing does what the entry says",
      "The menus of views, of buffers to add and of buffers to remove list each existing view, buffer not shown or buffer shown, once, by name; the command menu lists the commands. "
      "Choosing an entry does, for the client that chose, exactly what its command says, and what is not an entry cannot be chosen.",
      ["histories", "inputs"], "all states reached by changes of views, all entries",
      "Tests do not open menus in states with several views and clients.",
      ["core/src/editor/menu.rs", "core/src/editor/command.rs"], [("entries computed when the menu is asked for", "MenuEntry, Menu::new"), ("action of an entry", "Menu::choose, Editor::command_menu_select")],
      observe=["menu notification", "response of menu-select"]),
    P("E09", "What a client does on its own side is invisible to the others",
      "Selecting, moving, showing another view, opening a menu, typing keys or failing commands changes neither the view, nor the selections, nor the mode of another client, and sends it nothing.",
      ["histories"], "all short sequences of requests of one client, seen from another one",
      "Tests have a single client.",
      ["core/src/editor/mod.rs", CORE], [("state per client", "ClientContext, Editor.command_maps")], state=[("clients", "the view, selections and pending keys of each client", "CoreState.clients")],
      observe=["broadcast messages", "view notifications"], hook="verif_clients under cfg(ced_verif)"),
    P("E10", "Messages and errors reach the right clients and are all logged",
      "A message is shown once, as it is, to the client it is for or to everybody, and an error is shown as an error on one line; both are appended in order to the log buffer, in full.",
      ["inputs"], "all messages of all characters, empty ones and ones of several lines included, for a client or for all",
      "Tests do not look at messages.",
      [CORE], [("echo notifications and the debug buffer", "Core::message, Core::error, Core::debug")], observe=["echo notification", "the debug buffer"]),
    P("E11", "Keys do what the current mode says and the status line follows",
      "Each key does what it is bound to in the current mode and nothing when it is not bound; prefixes wait for the next key, show their hint and are left after it; modes are entered and left as bound. "
      "After every key that is handled the client, and only it, gets its status line with the key, the mode, the client and the session as they are, whatever the session is called.",
      ["histories", "inputs"], "all sequences of keys within the bounds, on any text; any session name",
      "Tests send single keys.",
      ["core/src/editor/mod.rs", "core/src/editor/command.rs", CORE], [("key maps per mode", "CommandMap, Editor::command_keys"), ("status line computed by scripts", "Core::set_status_line, StatusLine")],
      state=[("context", "the pending keys and mode of each client", "ClientContext.context")], observe=["status, hint and echo notifications", "view notification"], hook="verif_clients under cfg(ced_verif)"),
    P("E12", "The menu of files lists the files there are, and opens the one chosen",
      "The menu of files lists each file below the working directory once, by its path from there, hidden ones left out, as the files are when it is asked for. "
      "Choosing an entry shows the client that chose, and only it, a buffer with the content of that file; if the file is gone by then this is an error and changes nothing.",
      ["inputs", "histories", "faults"], "all sets of a few files in nested directories, created before or after an earlier menu, and removed before the choice",
      "No test covers it; what is listed depends on the file system and on when the list was last made.",
      ["core/src/editor/command.rs", "core/src/editor/menu.rs", BUF], [("files found by walking the working directory", "default_commands: open"), ("menus populated when asked for", "Menu::populate, Editor::command_menu")],
      observe=["menu notification", "response of menu-select"]),
    P("L01", "Scripts are told the truth about clients, and their mistakes harm nobody",
      "A script which asks about a client is told its view, the position, line and column of each end of its selections and the text they select, who runs it in what session, and what it deleted. "
      "A call with any arguments either works or fails: then who runs the script is told the error, once, nothing has changed and all other clients are still served.",
      ["inputs", "histories"], "all texts and selections in views of one or two buffers; all functions of the scripting interface with up to three arguments of all types",
      "Tests run scripts over one ASCII text with right arguments; a panic in a call ends the session of everybody.",
      [CORE, "core/src/editor/mod.rs", "core/scripts/editor.lua"], [("state of a client as tables", "Core::add_methods: get_context, SelectionData, PositionData"), ("calls from scripts", "Core::add_methods, LuaEditor::add_methods"), ("errors of scripts", "Editor::exec_lua")],
      observe=["values returned to scripts", "echo notification"], hook="verif_clients, verif_select under cfg(ced_verif)"),
    P("L02", "A hint shown by a script has all its lines, in a straight frame",
      "Each line of a hint is shown whole, in order, and filled up so that all end below each other, counted in characters; a framed hint has the first line as its title in a closed frame around the others. "
      "Showing it again shows the same.",
      ["inputs"], "all lines with characters of one to four bytes, framed or not",
      "No test covers it; lines were measured in bytes and long titles burst the frame.",
      ["core/scripts/editor.lua", "core/scripts/utils.lua", "core/src/editor/mod.rs"], [("lines filled up and framed", "Editor:show_hint, utils.max_length"), ("hint notification", "LuaEditor::add_methods: show_hint")],
      observe=["hint notification"]),
    P("L03", "Scripts are run in order, in one editor, up to the first which fails",
      "The files of scripts are run in order and each sees what those before it did; all run when none fails. The first which is missing, is no text, is no script or fails is reported as such.",
      ["inputs", "faults"], "all sequences of a few scripts which change the editor, check the order, fail in any way or are missing",
      "Tests run each script alone.",
      ["core/src/script.rs"], [("scripts run in one editor", "exec_scripts, exec_script_oneshot")],
      observe=["the result and the kind of its error"]),
    P("R01", "Every message survives being written and read back",
      "A request, response, error or notification is written on one line, and reading that line gives the same kind of message with the same identifier, method, parameters, result or error, whatever texts they contain.",
      ["inputs"], "all identifiers, methods, texts with control characters, separators and characters of any width",
      "Tests round-trip two literals; the framing by lines and the distinction of kinds depend on contents.",
      ["remote/src/jsonrpc.rs", "remote/src/protocol.rs"], [("JSON-RPC messages", "Request, Response, Notification, ClientEvent, Id"), ("typed notifications", "protocol::notifications")],
      observe=["Request::to_string, parse", "ClientEvent::from_str"]),
    P("R02", "A key survives being written, sent and read back",
      "Whatever key is typed, with whatever modifiers, what it is displayed as parses back to it, and it arrives at the server as it was typed; an upper case letter is its lower case key with shift.",
      ["inputs"], "all special keys and characters, all modifiers",
      "Tests parse a handful of keys.",
      ["remote/src/keys.rs"], [("display and parsing of keys", "KeyEvent::fmt, From<&str>, From<char>")], observe=["KeyEvent::to_string", "requests::Keys"]),
    P("R03", "A session name means the same session to the client and to its server",
      "A name of the form @address:port with a valid IPv4 address, or none for the local host, and a valid port is that address; any other name is a socket of that name in the user's own directory. "
      "A session is displayed under a name which means the same session.",
      ["inputs"], "all short names, all octets and ports",
      "Tests check three names.",
      ["remote/src/session.rs"], [("names recognised as addresses", "ConnectionMode::tcp_address"), ("socket paths", "Session::from_name, build_root")], observe=["Session::from_name", "Session::to_string"]),
    P("R04", "A client's state is what the server last told it",
      "After any sequence of notifications a client has the last identity, message, menu, status line and view it was sent, and reports each as an event with the same content; a menu hides the message. "
      "Responses, unknown notifications and notifications with wrong parameters change nothing.",
      ["histories", "inputs"], "all sequences of notifications of all kinds, malformed ones included",
      "Tests do not cover the connection's state.",
      ["remote/src/connection.rs"], [("state updated by each event", "Connection::handle_event, ConnectionState")], state=[("state", "what the client knows", "Connection.state")],
      observe=["Connection::state", "ConnectionEvent"], hook="Connection::verif_event under cfg(ced_verif)"),
    P("R05", "A client's menu selection stays within its entries and is what gets sent",
      "Moving in a menu stays within its entries, stops at both ends and starts at the first; choosing sends the selected entry, or what was typed for a prompt, once, and closes the menu. "
      "Without a menu or an entry, nothing is sent and nothing fails.",
      ["histories"], "all sequences of showing, moving, choosing and cancelling over menus of any number of entries",
      "No test covers it; empty menus and repeated choices panicked or sent wrong choices.",
      ["remote/src/connection.rs"], [("selection in the menu", "Connection::action_menu_select_next, action_menu_select_previous, menu_select, action_menu_cancel")],
      state=[("menu", "the menu shown and its selection", "ConnectionState.menu")], observe=["Connection::state", "requests sent"], hook="Connection::verif_sent under cfg(ced_verif)"),
    P("R06", "Each client command sends exactly its request, numbered in order",
      "Quitting, editing, asking for a menu, typing keys and running a script each send one request of their method with exactly the parameters given, on one line, with identifiers that increase by one.",
      ["inputs", "histories"], "all sequences of commands with any texts",
      "No test covers it.",
      ["remote/src/connection.rs", "remote/src/protocol.rs"], [("numbered requests", "Connection::request, requests")], observe=["requests sent"], hook="Connection::verif_sent under cfg(ced_verif)"),
    P("R07", "A front end hears all its server says, and survives its server",
      "Whatever a server writes, in however many parts, each line is one event or one reported error, in order, and what is not understood does not change what is heard next. "
      "A front end whose server leaves or whose connection breaks is told so, once, does not fail, and may go on sending.",
      ["histories", "faults", "inputs"], "all sequences of messages, garbage, partial lines, closed, reset and half-broken connections",
      "Tests have no connection; a reset connection or a line that is not text panicked.",
      ["remote/src/client.rs", "remote/src/connection.rs"], [("lines read from the stream and parsed", "Client::run, parse_line"), ("events of a connection", "Connection::connect")],
      observe=["the stream of ConnectionEvents"], hook="streams in memory under cfg(ced_verif)"),
    P("S01", "Whatever its clients do, a server answers the others and ends with the last one",
      "Each request is answered, once, in order, on the connection of its client, up to the one to quit; lines that are no requests are answered with an error. "
      "Clients that send garbage, leave in the middle of a line, fail to connect, reset or stop listening affect nobody else; what is written is whole lines. "
      "A server goes on while a client that joined is there, and ends when the last has left.",
      ["schedules", "faults", "histories"], "all orders in which clients connect, send, break and leave, and in which the tasks of the server run, with partial reads and writes",
      "Tests do not run a server: its tasks, broken connections and partial writes depend on schedules and faults.",
      ["core/src/server.rs", "core/src/editor/mod.rs"], [("one event queue for all clients", "Server::handle_events"), ("a reader per client", "Server::read_client"), ("accepting clients", "Server::serve")],
      state=[("clients", "the streams of the clients by id", "handle_events: clients")], observe=["what is written to each connection", "end of the server"], hook="streams in memory and tasks of the server under cfg(ced_verif)"),
    P("S02", "Clients of a server see the same buffers, and lose nothing of what they do",
      "Clients connected to a server change buffers by requests in any order; when all is quiet each shows what it asked for, those that show the same buffer show the same text, "
      "each client's additions are there once and in its order, whatever the others do, quit or break, and what is sent after quitting has no effect. Clients are told when their server ends.",
      ["schedules", "histories", "faults"], "all orders of requests of several clients, of the tasks that send, serve and receive them, with partial writes",
      "Tests have no server with clients; what is seen depends on the schedule of five tasks.",
      ["core/src/server.rs", "remote/src/client.rs", "remote/src/connection.rs", CORE], [("requests sent by a loop", "Client::run"), ("broadcasts to the clients concerned", "BroadcastMessage, handle_events"), ("views after each change", "Core::notify_view_update")],
      observe=["Connection::state of each client"], hook="streams in memory and tasks of the server under cfg(ced_verif)"),
    P("S03", "When a server ends its session is gone, and no other is",
      "The list of sessions names each session in the user's directory once. When the last client has left, however it left, the server ends well, its session is no longer listed, all others still are, and their directory is removed with the last one; a session over TCP leaves them all alone. "
      "A server whose session is taken by another says so and leaves every session alone.",
      ["histories", "faults"], "all sets of a few other sessions, sessions on sockets and over TCP, one or two clients which quit, leave or break in any way",
      "No test ends a server; a session which stays keeps its clients from starting a new server.",
      ["core/src/server.rs", "remote/src/session.rs"], [("cleaning when a server ends", "Server::run"), ("sessions found in the user's directory", "Session::list, build_root")],
      observe=["Session::list", "the user's session directory"], hook="streams in memory under cfg(ced_verif)"),
    P("S04", "A session is started once when it is needed, and is ready then",
      "A session whose socket is there, or which has an address, is not started; any other is started once, as a server of that same session which has no part in the terminal. "
      "Starting succeeds when the server has said that it is ready, waits no longer, and fails when it could not be started or ended before.",
      ["inputs", "faults"], "names and addresses of sessions, sockets there or not, anything the server prints in any parts, servers that are missing or end early",
      "Tests start a server twice, with fixed names; a server which failed was taken for ready.",
      ["remote/src/lib.rs", "remote/src/session.rs"], [("a server started and waited for", "start_daemon, ensure_session"), ("names and addresses", "ConnectionMode: Display, FromStr; Session::from_name")],
      observe=["the program started and its arguments", "the result"], hook="programs which are started are the harness's under cfg(ced_verif)"),
    P("C01", "A JSON client relays requests and messages whole, at once and in order",
      "Each line of its input which is a request is sent to the server at once, as it means, on a line, and other lines are left out; each message of the server is written at once, as it means, on a line of the output, and what is no message is left out. "
      "It goes on when its input ends or fails, ends well when its server leaves or breaks, after writing all that was said, and fails when there is no server.",
      ["histories", "faults", "inputs"], "all histories of lines typed and written, requests, messages or anything else, with partial writes, ends and resets",
      "No test covers it: messages were written without end of line, and nothing was seen until a buffer was full.",
      ["core/src/clients.rs", "remote/src/client.rs", "remote/src/jsonrpc.rs"], [("input to requests, events to output", "StdioClient::run"), ("requests sent and lines parsed", "Client::run")],
      observe=["the input of the server", "the output of the client"], hook="standard streams in memory under cfg(ced_verif)"),
    P("C02", "A standalone editor answers each line and shows each notification",
      "Each line typed which is a request is answered on a line of the output, each notification for its client is written on a line, answers and notifications each in order and at once, and all are written before it ends. "
      "A line which is no request, or no text, is passed over, and it ends when its input ends or fails.",
      ["schedules", "inputs", "faults"], "all sequences of lines, all schedules of the thread which writes notifications",
      "No test covers it; notifications not yet written when the input ended were lost, and an input which failed was read for ever.",
      ["core/src/clients.rs"], [("answers and notifications", "start_standalone")],
      observe=["standard output"], hook="remote::threads and the console in clients::verif under cfg(ced_verif)"),
    P("F01", "Foreign front ends get every event, text and error whole, and fail safely",
      "Every event a connection produces reaches a foreign front end with its kind, texts, faces, numbers and nested items, each once, in order, and then the end, whatever the texts contain (a NUL is left out). "
      "The last error is kept until its whole message is copied into a buffer that is large enough; nothing is written outside the buffer.",
      ["inputs", "histories"], "all events with any texts and numbers of items, all sequences of errors and buffer sizes",
      "No test covers the foreign interface; it panicked on half of the events and on NULs.",
      ["remote-ffi/src/event.rs", "remote-ffi/src/text.rs", "remote-ffi/src/lib.rs"], [("events as C structures", "CedEvent::from, iterators"), ("last error", "set_last_error, ced_last_error_length, ced_last_error_message")],
      observe=["ced_text_next_item, ced_status_next_item, ...", "ced_last_error_message"], hook="none: the crate is built with its private modules reachable"),
    P("F03", "A foreign connection hands over each event once, in order",
      "Events of the server, errors among them, are handed to the foreign caller once, in the order they came, whenever it asks; a caller who asks when there is none waits and is told, and loses nothing by it. "
      "A connection whose session cannot be started is null and leaves an error.",
      ["schedules", "histories"], "all schedules of the caller and the threads which read events and write requests, all histories of lines of the server",
      "No test covers it; it runs two threads for each connection.",
      ["remote-ffi/src/connection.rs"], [("threads of a connection", "ced_connection_create, ced_connection_next_event")],
      observe=["events handed over"], hook="remote::threads under cfg(ced_verif)"),
    P("F02", "The generated interface has each function of each structure, exactly once",
      "For every configuration, the generator emits for each iterator and item the functions to go on and to destroy, named after it in snake case, on its types, once, and nothing else.",
      ["inputs"], "all configurations of a few structures with names of any letters",
      "The generator has no tests; its output is compiled for a single configuration.",
      ["remote-ffi-gen/src/lib.rs"], [("functions generated from a configuration", "remote-ffi-gen")], observe=["the generated source"], hook=None),
    P("D01", "A terminal shows what its server told, in the space it has",
      "On a screen of any size, the terminal front end shows the buffers and lines of the view, in order, then nothing, and on the last row the message and the end of the status; a menu with its title, entries and selected entry; a hint in the corner. "
      "Texts that are too long are cut, by characters; faces are those told; nothing is drawn past an edge, and nothing scrolls or panics.",
      ["inputs", "histories"], "all sizes of a screen, views, messages, statuses, menus and hints with texts of one to four-byte characters around the width of the screen",
      "The terminal front end has no tests: it panicked when a status, a header, a title or a hint was wider than the screen, or a cut fell in a character.",
      ["core/src/tui.rs", "remote/src/protocol.rs"], [("views and status", "Term::draw_view, draw_status"), ("menus", "Term::draw_menu"), ("hints", "Term::draw_hint")],
      observe=["the screen a terminal makes of what is written to it"], hook="the output of the terminal front end is kept in memory under cfg(ced_verif)"),
    P("D02", "Keys typed in a terminal ask for what they mean, and errors are shown",
      "Each key is sent once, as it was typed, or asks for the menu it stands for, or moves, searches, chooses or leaves the open menu, or leaves the front end; others send nothing. "
      "An error of the front end, whatever its text, is shown to its user by the server.",
      ["inputs", "histories"], "all keys with any modifiers, with and without an open menu and any selected entry; errors of any text",
      "The terminal front end has no tests: its errors were sent as scripts that do not parse.",
      ["core/src/tui.rs", "remote/src/connection.rs", "remote/src/protocol.rs"], [("keys to requests", "Term::handle_input"), ("errors of the front end", "Term::error")],
      observe=["requests sent", "the messages of the server"], hook="events of the terminal are given to the front end under cfg(ced_verif)"),
    P("D03", "A terminal front end shows what its server says and sends what is typed",
      "From its start until it is left or its server goes, and in whatever order keys, messages, sizes and faults arrive, the front end asks for its files first and in order, sends what is typed once and in order, shows the open menu or else the view, message and status the server sent last, "
      "and reports what the server gets wrong; it ends, without failing, when it is left or its server goes, never before, and sets the terminal back.",
      ["histories", "schedules", "faults"], "all sequences of keys, views, messages, status, menus, sizes, garbage, faults of the terminal and the end of the server, one at a time or together",
      "The terminal front end has no tests: it wrote a log in the current directory or failed, failed on keys typed as the server left, and drew the view over an open menu.",
      ["core/src/tui.rs", "remote/src/connection.rs", "remote/src/client.rs"], [("the event loop", "Term::start"), ("what is drawn", "Term::draw")],
      observe=["the screen", "requests sent", "the end of the front end"], hook="the terminal, its events, the stream and what happens while the front end waits are the harness's under cfg(ced_verif)"),
    P("U01", "A map of what was used last knows its keys, values and the latest",
      "After any insertions, replacements, removals, uses and changes, the map has for each key the value last set, and the latest key and value are those inserted or used last among the keys still there. "
      "Using a key that is not there is an error and changes nothing.",
      ["histories"], "all sequences of operations over a few keys",
      "A single test runs one sequence.",
      ["core/src/stackmap.rs"], [("keys in the order of use beside a map", "StackMap::insert, set_last, remove")], state=[("stack", "keys, latest first", "StackMap.stack")], observe=["latest, latest_value, get"]),
    P("U02", "Files are named by the shortest end of their path that tells them apart",
      "The short name of a file is the least number of last components of its path that no other file's path ends with, or the whole path if there is none; names of different files differ and scratch buffers keep their own.",
      ["inputs"], "all sets of paths within the bounds, paths that are ends of others included",
      "Tests check four paths; ends of other paths and shared directories were named wrongly.",
      [BUF], [("names extended until unique", "find_uniq_name, find_shortest_name")], observe=["Buffer::shortest_name"]),
]

NOT_APPLICABLE = {
}
