import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=mech,observe_at=observe or [],hook_needed=None)))
M="crates/move_language_server/src/"
def m(name,where): return dict(name=name,where=where)
def s(name,meaning,where): return dict(name=name,meaning=meaning,where=where)
p("C01","Published diagnostics converge to the final document texts",
 "Once the client stops editing, then for every document that is still open the diagnostics the client last received for it (none, if it never received any) are exactly those that analysing the document's current text from scratch yields. This holds for every interleaving of the client's messages with the background analysis, including edits that arrive while an analysis is running, queued, finished but not yet delivered, or being cancelled.",
 ["schedules","histories"],"every schedule of reader, main loop, workers, writer and client, and every history of open, change, close and reopen over several documents",
 "No test starts the server: the existing tests are parser snapshots and a single-threaded text-edit test, so no interleaving of edits with background analysis is ever run.",
 [M+"main_loop.rs",M+"global_state.rs",M+"diagnostics.rs",M+"thread_pool.rs",M+"reload.rs",M+"handlers.rs","crates/ide/src/lib.rs"],
 [m("handle_event / update_diagnostics",M+"main_loop.rs"),m("DiagnosticCollection::set_native_diagnostics / take_changes",M+"diagnostics.rs"),m("process_changes",M+"global_state.rs"),m("Cancelled::catch","crates/ide/src/lib.rs")],
 [s("DiagnosticCollection.native","last diagnostics accepted per file",M+"diagnostics.rs"),s("MemDocs","open documents and their versions",M+"mem_docs.rs")],
 ["textDocument/publishDiagnostics on stdout"])
p("C02","Published diagnostics belong to the document version they name",
 "Every set of diagnostics the server publishes with a version number is exactly the analysis of the text the client's document had at that version, and version numbers published for a document never go backwards while it stays open. A client that discards diagnostics whose version is not its current one therefore never shows a squiggle computed for another text.",
 ["schedules","histories"],"every schedule of edits, cancellations and delivery of analysis results",
 "Version numbers appear in no test, and a mismatch needs a result computed for one text to be delivered after the next edit has been processed.",
 [M+"main_loop.rs",M+"mem_docs.rs",M+"diagnostics.rs",M+"thread_pool.rs"],
 [m("publish loop in handle_event",M+"main_loop.rs"),m("TaskPool::spawn",M+"thread_pool.rs")],
 [s("DocumentData.version","version of the last edit applied",M+"mem_docs.rs")],["textDocument/publishDiagnostics version"])
p("C03","The analysed text equals the client's text after any edit history",
 "After any history of didOpen, didChange (whole-document or ranged edits, several per message, positions in UTF-16 code units as LSP prescribes), didClose and reopen, over any number of documents and with LF or CRLF line ends and non-ASCII text, the text the server analyses is the text an LSP client holds for that document. Messages about one document never alter another.",
 ["histories","schedules"],"every history of document notifications, however the messages are cut into reads and however many are processed per analysis",
 "One unit test applies five hand-written edit batches to ASCII strings; no history through didOpen/didChange/didClose, no reopen, no CRLF, no multi-document history is run.",
 [M+"main_loop.rs",M+"lsp_utils.rs",M+"from_proto.rs",M+"line_index.rs",M+"global_state.rs","crates/vfs/src/lib.rs","crates/vfs/src/path_interner.rs","crates/vfs/src/file_set.rs","crates/ide_db/src/line_index.rs","crates/base_db/src/change.rs"],
 [m("apply_document_changes",M+"lsp_utils.rs"),m("Vfs::set_file_contents / take_changes","crates/vfs/src/lib.rs"),m("LineEndings::normalize",M+"line_index.rs"),m("Change::apply","crates/base_db/src/change.rs")],
 [s("Vfs.data","current bytes per file","crates/vfs/src/lib.rs")],["textDocument/publishDiagnostics ranges and messages"])
p("C04","Every request gets exactly one response with its own id",
 "Each request the client sends after the handshake and before exit is answered exactly once, with the id it was sent with: shutdown with a null result, an unsupported method with MethodNotFound, anything after shutdown with InvalidRequest, and a cancelled request at most once. No response is sent for an id that is not outstanding and none for a notification, whatever the interleaving of requests, cancellations, document traffic and background results.",
 ["schedules","histories"],"every history of requests, cancellations, duplicate and string ids mixed with edits, and every schedule",
 "No test sends a request.",
 [M+"dispatch.rs",M+"main_loop.rs",M+"global_state.rs"],
 [m("RequestDispatcher",M+"dispatch.rs"),m("register_request / respond / cancel",M+"global_state.rs")],
 [s("ReqQueue.incoming","outstanding client requests",M+"global_state.rs")],["responses on stdout"])
p("C05","The server always makes progress: no deadlock, no lost wake-up",
 "While the client keeps reading and the streams stay open, every request is answered and every edit is followed, within a bounded amount of work, by the server having dealt with it and being idle again; no combination of in-flight analyses, pending edits, full pipes, slow readers or cancelled work leaves the main loop, a worker or an I/O thread waiting forever.",
 ["schedules","histories","fault_sequences"],"every schedule and every stall pattern of client and workers, with bounded pipes and one to several worker threads",
 "A deadlock needs a particular interleaving of snapshots, cancellation, bounded channels and pipe back-pressure; nothing multi-threaded is tested.",
 [M+"main_loop.rs",M+"global_state.rs",M+"thread_pool.rs","crates/ide/src/lib.rs","crates/ide_db/src/apply_change.rs"],
 [m("next_event select loop",M+"main_loop.rs"),m("apply_change cancels and waits for snapshots","crates/ide_db/src/apply_change.rs"),m("GlobalStateSnapshot dropped by worker",M+"main_loop.rs")],
 [s("vfs RwLock","shared between main loop and workers",M+"global_state.rs")],["stdout, thread states"])
p("C06","A session always ends cleanly, at whatever point it ends",
 "Whenever the session ends - shutdown followed by exit, exit alone, end of input at any byte, or loss of the output stream - and whatever analyses are running or queued at that moment, the process terminates in bounded work and without being killed by a signal. After an orderly shutdown-exit its exit status is 0 and the response to every request sent before exit has been delivered in full.",
 ["crash_points","schedules","fault_sequences"],"every instant at which the session may end: every message boundary, every byte of input or output, with work in flight",
 "Process termination is not exercised by any test; the failing points are instants inside running work.",
 [M+"main_loop.rs",M+"global_state.rs",M+"thread_pool.rs",M+"bin/move_language_server.rs"],
 [m("TaskPool::drop joins",M+"thread_pool.rs"),m("GlobalState::drop requests cancellation",M+"global_state.rs"),m("Handle drop order",M+"global_state.rs"),m("io_threads.join",M+"bin/move_language_server.rs")],
 None,["exit status, stdout bytes, thread states"])
p("C07","No well-framed client message stops or corrupts the service",
 "After the handshake, no well-framed JSON-RPC message can stop the server or lose another document's state: unknown methods, malformed parameters, notifications for documents that are not open, duplicate or out-of-order or repeated notifications, edits outside the document, responses to requests never made, and URIs of other schemes are each rejected or ignored. Requests sent afterwards are answered and documents edited correctly afterwards still get correct diagnostics.",
 ["histories","fault_sequences"],"every history in which messages are lost, duplicated, reordered or garbled by a faulty client, mixed with correct traffic",
 "No test feeds the server a message at all, let alone a wrong one in the middle of correct traffic.",
 [M+"dispatch.rs",M+"main_loop.rs",M+"global_state.rs",M+"from_proto.rs",M+"lsp_utils.rs",M+"lib.rs"],
 [m("NotificationDispatcher",M+"dispatch.rs"),m("complete_request",M+"global_state.rs"),m("apply_document_changes",M+"lsp_utils.rs"),m("from_proto::vfs_path / text_range",M+"from_proto.rs")],
 None,["stdout, exit status"])
p("C08","Published positions use the position encoding agreed at initialisation",
 "Every position in a published diagnostic lies inside the client's document of that version and is expressed in the encoding agreed in the handshake: UTF-16 code units unless the client offered utf-8 and the server's reply selected it. A client converting the range back gets exactly the text span the analysis reported.",
 ["configurations","histories"],"every client capability set and every document history with text outside ASCII and either kind of line end",
 "Tests of the line index use it in isolation; none connects the negotiated encoding with what is published.",
 [M+"global_state.rs",M+"config.rs",M+"to_proto.rs",M+"line_index.rs",M+"lsp_ext.rs",M+"handlers.rs",M+"bin/move_language_server.rs"],
 [m("file_line_index",M+"global_state.rs"),m("Config::offset_encoding",M+"config.rs"),m("supports_utf8",M+"lsp_ext.rs"),m("to_proto::range",M+"to_proto.rs")],
 None,["textDocument/publishDiagnostics ranges, initialize result"])
p("C09","Analysis snapshots are consistent, and edits never wait on them forever",
 "Every query on an analysis snapshot, from any number of threads, either answers for exactly the state the host had when the snapshot was taken - never for a later state and never for a mixture - or fails as cancelled because the host has since been asked to change or to cancel; once that change or cancellation has returned, no earlier snapshot answers any more. Applying a change always completes once running queries reach their next cancellation check, and snapshots taken afterwards see the change.",
 ["schedules","histories"],"every interleaving of reader threads with a writer applying changes",
 "The analysis host is never used from two threads in a test.",
 ["crates/ide/src/lib.rs","crates/ide_db/src/lib.rs","crates/ide_db/src/apply_change.rs","crates/base_db/src/change.rs","crates/base_db/src/lib.rs","crates/ide_diagnostics/src/lib.rs"],
 [m("AnalysisHost::apply_change","crates/ide/src/lib.rs"),m("Analysis::with_db","crates/ide/src/lib.rs"),m("synthetic_write before set","crates/ide_db/src/apply_change.rs")],
 None,["Analysis::diagnostics, Analysis::file_line_index"])
p("C10","The initialize handshake is answered once, first, and truthfully",
 "Apart from the ServerNotInitialized errors that answer requests sent too early, the first message the server sends is the reply to initialize, sent once with the request's id, advertising open/close and full document sync, and choosing utf-8 positions only if the client offered them. Dynamic registration of didSave is requested exactly when the client's capabilities allow it, never before the client's initialized notification, whatever way the bytes are cut and whichever folders or projects exist.",
 ["configurations","schedules","fault_sequences"],"every capability set, workspace layout, chunking of the byte stream and order of early messages",
 "No test performs the handshake.",
 [M+"bin/move_language_server.rs",M+"caps.rs",M+"config.rs",M+"lsp_ext.rs",M+"main_loop.rs"],
 [m("run_server",M+"bin/move_language_server.rs"),m("server_capabilities",M+"caps.rs"),m("did_save_text_document_dynamic_registration",M+"config.rs")],
 None,["initialize result, client/registerCapability"])
p("C11","File-system faults during project discovery never cost the service",
 "Whatever the file system does while the server starts and projects are discovered and loaded - no current directory, missing, unreadable, vanishing, huge, non-UTF-8 or malformed manifests, directories that cannot be listed or fail halfway, permission, I/O and descriptor-limit errors, slow disks, a log file that no longer takes writes - the server completes the handshake and serves documents exactly as with a healthy file system.",
 ["fault_sequences","schedules"],"every sequence of file-system errors at any call made during discovery and loading, at any moment relative to client traffic",
 "No test touches discovery, and errors at chosen file-system calls cannot be produced by fixtures.",
 ["crates/project_model/src/lib.rs","crates/project_model/src/workspace.rs","crates/project_model/src/manifest_path.rs",M+"reload.rs",M+"bin/move_language_server.rs",M+"logger.rs"],
 [m("ProjectManifest::discover_all","crates/project_model/src/lib.rs"),m("ProjectWorkspace::load","crates/project_model/src/workspace.rs"),m("fetch_workspaces",M+"reload.rs")],
 None,["stdout, exit status"])
p("C12","Streaming a child's output loses nothing and never deadlocks",
 "Running a command with streamed output delivers every line of the child's stdout and of its stderr to its own callback, each exactly once, whole, in order and including an unterminated last line, and returns the complete bytes of both streams and the child's exit status. A whole line is delivered as soon as it has arrived, however long the child then pauses. This holds however the child interleaves and splits its writes, whichever stream it closes first, whether it ends before a descendant that inherited its streams does, however much it writes, and when system calls are interrupted.",
 ["schedules","fault_sequences","inputs"],"every chunking and interleaving of the two streams, closing order, EINTR and child death at any point",
 "No test runs it; the outcome depends on how pipe reads and polls interleave with the child's writes.",
 ["crates/stdx/src/process.rs"],[m("streaming_output","crates/stdx/src/process.rs"),m("read2","crates/stdx/src/process.rs")],None,["callbacks and returned Output"])
p("C13","Analysis of any document text terminates and cannot harm others",
 "Whatever text the open documents hold - including every intermediate state of a user typing, pasting or deleting, with unbalanced brackets, unfinished literals, stray characters or very long content - analysing it terminates without crashing, and one document's text never prevents another open document from receiving its correct diagnostics.",
 ["histories","inputs"],"every keystroke-by-keystroke or block-edit history, i.e. every reachable intermediate text, alongside other open documents",
 "Parser tests sample some tens of complete files; nearly every intermediate editing state is one no fixture contains, and the effect on other documents is not tested.",
 ["crates/parser/src/lexer.rs","crates/parser/src/parser.rs","crates/parser/src/grammar.rs","crates/syntax/src/parsing.rs",M+"main_loop.rs",M+"handlers.rs"],
 [m("lexer","crates/parser/src/lexer.rs"),m("grammar error recovery","crates/parser/src/grammar.rs"),m("update_diagnostics batch",M+"main_loop.rs")],
 None,["textDocument/publishDiagnostics"])
p("C19","A long session costs no more than a short one",
 "What a session costs follows from its documents and their texts, not from how long it has lasted. A client that keeps repeating the same exchange about the same documents - edits, saves, closing and reopening, requests, cancellations, messages that are to be ignored, in any mixture and pace - makes the server do about as much work for each repetition as for the first ones, and the server, whenever it is idle again, holds no more memory than after the first ones, up to a bounded allowance. (What is kept for each document that was ever opened is not counted.)",
 ["histories","schedules"],"every exchange, repeated for as long as a session lasts, under every schedule of the workers",
 "Tests end after a handful of steps; a queue that is never drained or a list that is searched ever longer shows only after many repetitions.",
 [M+"main_loop.rs",M+"global_state.rs",M+"diagnostics.rs",M+"mem_docs.rs",M+"thread_pool.rs","crates/vfs/src/lib.rs","crates/base_db/src/change.rs"],
 [m("ReqQueue, awaited_responses",M+"global_state.rs"),m("Vfs::take_changes","crates/vfs/src/lib.rs"),m("DiagnosticCollection::take_changes",M+"diagnostics.rs"),m("TaskPool",M+"thread_pool.rs")],
 [s("GlobalState","everything the session keeps",M+"global_state.rs")],["steps executed and heap held between repetitions"])
X="editors/code/src/"
p("C14","The extension installs its executables whole or not at all",
 "The VS Code extension puts a downloaded executable (dove, the language server) in place only complete, byte for byte the asset the release lists for this platform, and executable; it never runs anything else in its place. This holds however downloads, disk operations and dialogs of several windows sharing the storage folder interleave, whichever of them fail, are cut off or answer with an error, and wherever a window is closed or killed; what is installed whole is not downloaded again; afterwards opening a window with working network and disk installs both and starts the server, if need be after the user replaced a GitHub token the API refuses in the dialog offered. On a platform without builds nothing is installed. Executables the user configures (with ~/ for the home directory) are used as they are, without download, and the GitHub token is sent with each request to the GitHub API and to nothing else. Who asks for a retry gets one, each time; a token is asked for only when the user chose to change it, in an input box that hides it; the progress shown never falls and ends at 100 %.",
 ["fault_sequences","schedules","crash_points"],"every interleaving of several windows, every kill point, and every sequence of network and disk faults",
 "The extension has no tests; a half-written file in place needs a kill, a fault or a second window at one particular moment.",
 [X+"components/net.ts",X+"components/bootstrap.ts",X+"components/util.ts",X+"components/persistent_state.ts",X+"components/settings.ts"],
 [m("download / downloadFile: temporary file, then rename",X+"components/net.ts"),m("getBinaryPathEnsureExists",X+"components/bootstrap.ts"),m("downloadWithRetryDialog",X+"components/net.ts")],
 [s("globalStorageUri","installed executables, shared by all windows",X+"components/bootstrap.ts"),s("githubToken","stored token",X+"components/persistent_state.ts")],
 ["files in the storage folder, executables run, requests sent"])
p("C15","The extension runs exactly one current server per project folder",
 "In a VS Code window at most one language server serves a project folder, and when nothing is pending none is left over from an instance of the extension that was reloaded or deactivated - no server, task provider, command or event handler - nor a server or task provider for a folder that was removed from the workspace, however activation, file switches, saves of Dove.toml, settings changes, folders being added and removed, reloads and deactivation interleave with downloads, dove runs and server starts and stops that are slow or fail. Each server is started in its folder, serves that folder's Move files and no others whatever characters the paths contain, and is initialised from the metadata dove printed for it, whatever warnings dove printed beside it. Without faults activation succeeds whatever file is active; an activation that fails, and an invalid Dove.toml, are reported to the user. Once faults have stopped and a valid Dove.toml has been saved or created, exactly one server runs for that folder, started from the current Dove.toml and the current settings, and the folder's build and test tasks exist once; saving an invalid Dove.toml leaves the running server alone and tells the user what dove says about it, and saving any other file changes and reports nothing. For a folder that never had a Dove.toml dove is not run, and without any project nothing is downloaded.",
 ["schedules","histories","fault_sequences"],"every interleaving of user actions with the extension's asynchronous work, and every sequence of failing or slow dove runs, server starts and stops",
 "The extension has no tests; duplicates, leaks and stale options appear only when a reload, save or switch falls into one particular await.",
 [X+"extension.ts",X+"components/ws.ts",X+"components/dove.ts",X+"components/client.ts",X+"components/tasks.ts",X+"components/bootstrap.ts"],
 [m("tryActivate, move.reload",X+"extension.ts"),m("ClientWorkspaceFactory.initClientWorkspace / dispose",X+"components/ws.ts"),m("ClientWorkspace.start / stop",X+"components/ws.ts"),m("Dove.runCommand",X+"components/dove.ts")],
 [s("workspaces","servers by folder",X+"components/ws.ts"),s("context.subscriptions","what a reload or deactivation undoes",X+"extension.ts")],
 ["servers started and stopped, their options; registered commands, listeners and task providers"])
p("C20","Project discovery finds exactly the projects there are",
 "For a workspace folder the language server finds the Dove.toml of the folder or of its nearest ancestor that has one, or else those of its immediate subdirectories; for several folders it finds the union of these, each project once and in the order of their paths, whatever the order in which folders are given or directories are listed and however names are spelt - hidden, not UTF-8, behind symbolic links. A folder that cannot be looked into, an entry that cannot be examined or that vanishes meanwhile costs only the projects that cannot be seen because of it. Loading a found manifest yields exactly the package it describes, or an error that leaves the others alone. (A directory that is named Dove.toml, and a folder of that name that does not exist, are undetermined.)",
 ["fault_sequences","schedules","histories"],"every directory tree, every sequence of failing file-system calls and every moment at which a file appears or vanishes during discovery",
 "No test touches discovery; what is missed or found twice depends on listing order, failing calls and concurrent changes.",
 ["crates/project_model/src/lib.rs","crates/project_model/src/manifest_path.rs","crates/project_model/src/workspace.rs","crates/project_model/src/dove_toml.rs","crates/paths/src/lib.rs"],
 [m("ProjectManifest::discover_all / discover / discover_single","crates/project_model/src/lib.rs"),m("ProjectWorkspace::load","crates/project_model/src/workspace.rs")],
 None,["returned manifests and workspaces"])
p("C21","A message costs the analysis of the documents it is about",
 "What the server does about a message does not depend on how long the other open documents are: equal messages about documents in equal states - opening, also of a document never seen before, editing, closing, saving, requests - cost about the same beside small documents as beside large ones, and lead to no publication about a document they do not concern. (With at most 100 open documents - the analyses of 128 are kept; converting the standing diagnostics of the other documents, at most 128 each, is not counted.)",
 ["histories","schedules","inputs"],"every history of documents and messages, under every schedule of the workers",
 "Tests look at results, not at work; that an unrelated document is analysed again shows in nothing but the time a large workspace takes.",
 [M+"main_loop.rs",M+"global_state.rs",M+"diagnostics.rs","crates/base_db/src/lib.rs","crates/base_db/src/change.rs","crates/ide_db/src/lib.rs","crates/ide_db/src/apply_change.rs"],
 [m("process_changes",M+"global_state.rs"),m("ParseQuery, DEFAULT_LRU_CAP","crates/base_db/src/lib.rs"),m("Change::apply","crates/base_db/src/change.rs"),m("set_native_diagnostics",M+"diagnostics.rs")],
 None,["steps executed between two messages; textDocument/publishDiagnostics"])
p("C22","The log is faithful",
 "With MOVE_LS_LOG set, the server writes each record of the targets and levels asked for and none else (without it, errors only), each whole and once, as [LEVEL target] text, to stderr or, when RA_LOG_FILE is given, to that file alone - created together with its folders and emptied of an earlier run's records. A record is written when it happens: what was logged before a kill is there. The messages logged at lsp_server=debug are exactly those exchanged, in their order; every request of an unknown method, unknown notification and change or closing of a document that is not open is logged as one error; a server that ends with an error status says why on stderr.",
 ["histories","schedules","configurations","crash_points"],"every setting, every history of messages, every interleaving of the threads that log and every moment the log is looked at",
 "No test looks at the log; torn, lost or misplaced records need threads that log at once, a long record, an old file, or a kill.",
 [M+"logger.rs",M+"bin/move_language_server.rs",M+"dispatch.rs",M+"main_loop.rs"],
 [m("Logger::install, LoggerFormatter",M+"logger.rs"),m("setup_logging",M+"bin/move_language_server.rs"),m("NotificationDispatcher::finish, RequestDispatcher::finish",M+"dispatch.rs")],
 [s("RA_LOG_FILE","the records of one run",M+"bin/move_language_server.rs")],["stderr, the log file"])
p("C16","Parsing is lossless",
 "For every text the syntax tree's tokens, concatenated, are exactly the text, and every node's range is the range its tokens cover.",
 ["inputs"],"every text","Fixtures sample some tens of texts.",
 ["crates/syntax/src/parsing.rs","crates/parser/src/lib.rs","crates/parser/src/event.rs"],[m("TextTreeSink","crates/syntax/src/parsing/text_tree_sink.rs")],None,["SyntaxNode::text"])
p("C17","Line index and offsets are inverse to each other",
 "For every text and every character boundary, converting an offset to line and column and back, in UTF-8 and in UTF-16, is the identity.",
 ["inputs"],"every text and offset","Tests sample a few short texts.",
 ["crates/ide_db/src/line_index.rs"],[m("LineIndex::line_col / offset / to_utf16 / to_utf8","crates/ide_db/src/line_index.rs")],None,["LineIndex"])
p("C18","Source generation from the grammar is reproducible",
 "Running the code generator on move.ungram gives exactly the committed node, token and syntax-kind sources, each time.",
 ["configurations"],"every run","No test runs the generator.",
 ["crates/generate_ast/src/generate_all.rs","crates/generate_ast/src/ast.rs","crates/generate_ast/src/syntax_kind.rs"],[m("generate_all","crates/generate_ast/src/generate_all.rs")],None,["crates/syntax/src/ast/nodes.rs, crates/parser/src/syntax_kind/generated.rs"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
