"""Regenerates /verif/properties.jsonl (the list is kept here because it is easier to review)."""
import json, pathlib
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),observe=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=None)))
VFS,SH,ND,PO,AD,SE,PY,PR,SP,CLI='sandfs/vfs.py','sandfs/shell.py','sandfs/nodes.py','sandfs/policies.py','sandfs/adapters.py','sandfs/search.py','sandfs/pyexec.py','sandfs/providers.py','sandfs/shell_parser.py','sandfs/cli.py'

p('C01','Sandbox work never touches the host',
 'Filesystem API calls and shell command lines never read or write the host disk, start a host process or use the network, unless the caller used an explicit bridge: export/materialize, a host-directory adapter, the host/bash/sh commands, or a shell created with host fallback on. Importing the package or constructing a filesystem or shell has no host effect either.',
 ['inputs','programs','configurations'],'every public API call and every command line, for every argument and every setting of host fallback',
 'Tests run a few command lines and never observe the absence of host effects; one unguarded fallback in a rare flag or error path is enough to break it.',
 [VFS,SH,AD,PY,SE,ND,CLI],[('only the export/materialize methods, the host-directory adapter and the host runner perform host I/O',VFS+' '+AD+' '+SH),('host runner is reached only from host/bash/sh or under the host-fallback setting',SH)],observe=['host filesystem, process table'])
p('C02','A command allow-list admits nothing else',
 'When a shell is created with an allow-list, a command whose name (after variable expansion) is not on the list never executes: not in any pipeline position, not as a builtin or registered command, and not through host fallback. An empty list disables every command, and a refused command yields a non-zero exit code.',
 ['inputs','configurations'],'every allow-list (including the empty one), host-fallback setting, registered command set and command line',
 'One test refuses one builtin; the combination with host fallback, unknown names, pipelines and empty lists is not sampled.',
 [SH],[('membership test that precedes every dispatch','SandboxShell._run_command'),('allow-list stored from the constructor','SandboxShell.__init__')],observe=['SandboxShell.exec'])
p('C03','No shell result exceeds the output cap',
 'When a shell has an output cap, no output of more than that many UTF-8 bytes (stdout plus stderr) is returned. An oversize result is replaced as a whole by one short fixed error with a non-zero exit code, for successful and failing commands, pipelines, redirections and multi-line scripts alike.',
 ['inputs','configurations'],'every cap, command line, exit path and output text including non-ASCII text',
 'One test caps one ASCII file on one path; the exit paths of the dispatcher and the encodings of the output are unbounded.',
 [SH],[('size check applied to every result that leaves the dispatcher','SandboxShell._enforce_output_limit / exec')],observe=['CommandResult returned by SandboxShell.exec'])
p('C04','Shell execution always returns a result',
 'Executing any command line returns a command result instead of raising, whatever the parser, the expansions, the redirections, the command handler, a provider or an adapter does. When a step failed, the result has a non-zero exit code and the rest of the pipeline and script is not run.',
 ['inputs','fault_sequences'],'every command line and every exception any handler, provider, hook or adapter can raise',
 'Tests exercise handlers that fail inside the handler; failures in redirection, glob expansion, host fallback and providers are not enumerable by examples.',
 [SH],[('exception barriers around dispatch and around each pipeline','SandboxShell.exec/_exec_pipeline/_run_command')],observe=['SandboxShell.exec'])
p('C05','Unreadable nodes are not read or listed',
 'The text of a file whose policy marks it unreadable is never returned by a file read, a sandboxed shell command, grep, or a search with or without the index. A directory so marked can be neither entered, listed, rendered as a tree nor searched when it is named as the starting point.',
 ['inputs','histories','configurations'],'every API read/search call and sandboxed shell command, every placement and later change of policies (host bridge, python snippets, snapshots and hooks are host-side and out of scope)',
 'The only test covers ls on one directory; content flows through many commands, the index and recursive traversals.',
 [VFS,SH],[('readability guard before content is handed out','VirtualFileSystem._ensure_read_allowed and the search/grep loops')],[('policy.readable','read permission of a node',PO)],['read_file, cat, head, tail, wc, grep, rg, search, /@search'])
p('C06','Read-only and append-only policies hold',
 'Outside mounting, storage sync, restore and policy administration, no operation changes, replaces, removes or moves a file whose policy is read-only, and the only change an append-only file admits is an append that keeps all its existing text. No operation adds an entry to, or removes one from, a directory whose policy is read-only.',
 ['inputs','histories'],'every mutating API call and shell command, every policy placement, static and provider-backed files',
 'Two tests check one overwrite each; creation through missing parents, copy-over, move, recursive delete and provider-backed appends are separate paths.',
 [VFS,SH,ND],[('write guard before each mutation','VirtualFileSystem._ensure_write_allowed'),('append keeps existing text','VirtualFile.write')],[('policy.writable / policy.append_only','write permissions of a node',PO)],['all mutating methods'])
p('C07','Views never disclose hidden nodes',
 'A shell restricted by a view never outputs the text, name or attributes of an existing node its view rejects: not by reading, redirecting input, listing, tree, find, globbing, grep, search or a search-view path. (A directory named as an operand is judged by its policy and path, not by metadata filters.) Python snippets and the host bridge are explicit escape hatches and not covered.',
 ['inputs','configurations','histories'],'every view, every tree labelling and every sandboxed command line',
 'Tests sample ls and cat on single files; each command is its own path to the tree and each needs its own filter.',
 [SH,VFS],[('visibility check on operands','SandboxShell._ensure_visible_path'),('per-node filter in traversals','ls/tree/glob/search/find/grep')],[('view','visibility restriction of a shell',SH)],['CommandResult of every command'])
p('C08','Views never let hidden nodes be changed',
 'A shell restricted by a view never creates, overwrites, appends to, touches, removes, copies or moves a node its view rejects, nor creates one at a path outside its prefixes, whether named directly, as a redirection target, or contained in a directory the command operates on recursively. Python snippets and the host bridge are not covered.',
 ['inputs','configurations'],'every view, tree labelling and mutating command line',
 'No test checks a mutating command under a restricted view.',
 [SH,VFS],[('visibility check on mutation operands and their subtrees','SandboxShell command handlers')],[('view','visibility restriction of a shell',SH)],['write, append, >, >>, touch, mkdir, rm, cp, mv'])
p('C09','A view admits exactly the nodes it describes',
 'A view admits a node exactly when (a) the node names principals and the view shares one of them, or it names none and the view lists its classification or has no classification list; and (b) if the view has path prefixes, the node lies under or above one of them; and (c) the node metadata equals every metadata filter. Nothing else about the node or the view changes the verdict.',
 ['inputs','configurations'],'every combination of view settings and node labels',
 'Five tests sample five of the combinations of the verdict table.',
 [PO],[('verdict functions','VisibilityView.allows / allows_node'),('normalisation of view settings','VisibilityView.__init__')],observe=['VisibilityView.allows, allows_node'])
p('C10','Policies and labels stick to their nodes',
 'A node keeps every attribute of its policy through writing, appending, touching, moving, storage sync, and snapshot plus restore; only explicit policy administration changes it. A copy receives an equal policy and equal metadata that are independent objects, so later edits of one do not affect the other.',
 ['histories'],'every sequence of operations between two policy administrations',
 'No test checks a policy after any of these operations.',
 [VFS,ND],[('policy cloning with every field','VirtualFileSystem._clone_policy/_clone_node'),('policy carried over a storage reload','VirtualFileSystem._load_storage_mount')],observe=['get_policy, node metadata'])
p('C11','A failed operation changes no file',
 'If writing, appending to, touching, moving, copying or deleting a file raises because of policy, version, storage, provider or name conflicts, then every file exists as before with the same text and version. Exceptions thrown by user hooks after the change and partially completed recursive deletes are outside this guarantee.',
 ['inputs','fault_sequences'],'every failure point of each single-target mutating operation',
 'Tests assert that an error is raised but never look at the state left behind; the failure points are not enumerated.',
 [VFS],[('checks before mutations, rollback after a rejected storage write','write_file, move, copy, remove')],observe=['read_file, get_version, exists after the exception'])
p('C12','Versions count writes and guard updates',
 'Every successful write or append raises the version of the file by exactly one, and nothing that fails or only reads changes it. A write that states an expected version takes effect only if the file is at exactly that version at that moment; otherwise it is refused.',
 ['inputs','histories'],'every sequence of writes with and without expected versions',
 'Tests sample three writes; skipped or doubled increments on particular paths remain invisible.',
 [VFS],[('version check before and increment with the write','VirtualFileSystem.write_file/_check_version')],[('version','write counter of a file',ND)],['get_version, WriteEvent.version'])
p('C13','Storage mounts see every file change',
 'After a successful write, append, creation or removal of a file under a storage mount, the adapter of the most specific enclosing mount has been given exactly that change: the complete new text with the version preceding the write, or the deletion, under the path relative to the mount. Files outside every mount reach no adapter.',
 ['inputs','histories','configurations'],'every file operation and every arrangement of (nested) mounts',
 'Tests use one flat mount and two operations; the routing and the skipped cases are unbounded.',
 [VFS],[('write-through after the in-memory write','_persist_storage/_delete_storage_entry/_find_storage_mount')],[('storage mounts','mount prefix to adapter',VFS)],['StorageAdapter.write/delete calls'])
p('C14','Every change is announced once, after commit',
 'Each successful write, append or creation of a file gives every write hook and path hook registered for the path or an ancestor exactly one event with the path, the complete new text, the new version and the right kind, and each removed file gives every such path hook exactly one delete event. Hooks for other prefixes are not called, failed operations announce nothing, and hooks run only after the tree, the storage and the index hold the new state.',
 ['inputs','histories','configurations'],'every operation, every set of registered prefixes',
 'Tests register a single hook and perform three operations.',
 [VFS,'sandfs/hooks.py','sandfs/integrations.py'],[('event emission after commit','_emit_write_event/_emit_path_event/_path_matches_prefix')],observe=['WriteHook and PathHook callbacks'])
p('C15','The index follows the tree',
 'With the full-text index enabled, after any operation that changes files (write, append, mounting a file or storage, removal, move, copy, sync, restore) the index holds the current text under each affected path and nothing under paths that ceased to exist. The search view is never indexed.',
 ['histories'],'every sequence of tree-changing operations with the index enabled at any point',
 'One test follows one file through three operations.',
 [VFS,SE],[('index maintenance in each mutating operation','_index_file/_remove_index_entry/_rebuild_index')],observe=['VirtualFileSystem.search'])
p('C16','Search reports exactly the matching permitted lines',
 'With or without the index, search and grep report a line (as split by splitlines, unaltered, with its path and line number) exactly when it matches the query in the requested mode (plain, ignoring case, regular expression, or both), and only from files under the requested path, never from files that are unreadable or hidden from the given view. A search never reports lines from the search view itself, and a search path that does not exist yields no results instead of an error. The empty pattern in plain case-insensitive mode is unspecified.',
 ['inputs','configurations'],'every query, mode, prefix, view and index setting',
 'Four copies of the matching loop exist and tests sample two of them; filters are sampled singly.',
 [VFS,SE,SH],[('matching and filtering loops','FullTextIndex.search, VirtualFileSystem.search, SandboxShell._search/_search_text')],observe=['search, grep, rg results'])
p('C17','Snapshots are complete and independent',
 'A snapshot records for every node its kind, text, metadata, policy, version and timestamps, plus the current directory and the storage mounts, and later changes to the filesystem never alter it. Restoring it succeeds whatever the recorded policies are, reproduces all recorded attributes, rebuilds the index, and leaves the snapshot reusable.',
 ['histories'],'every tree, every operation sequence between snapshot and restore',
 'Tests compare two file texts after one round trip.',
 [VFS],[('capture and replay of every node field','snapshot/restore/_clone_policy')],observe=['tree state after restore'])
p('C18','The tree stays a tree',
 'After any sequence of operations each node is listed exactly once, under its own name, in the directory it names as its parent, and no two siblings share a name. A directory never becomes its own descendant, and the root can be neither removed nor moved.',
 ['histories'],'every sequence of API calls and commands',
 'Structural corruption appears only after particular sequences (renames onto existing names, moves into descendants).',
 [VFS,ND],[('link maintenance in add/remove, detach-rename-attach in move and copy','VirtualDirectory.add_child/remove_child, move, copy, remove')],[('children/parent/name','tree links',ND)],['path(), ls, walk'])
p('C19','Host paths stay inside their root',
 'A host-directory adapter never reads, writes or deletes a host file outside its root, whatever path it is given and whatever symlinks its root contains. Exporting or materialising a tree never writes outside the target directory, whatever names the nodes have.',
 ['inputs','configurations'],'every relative or absolute path, symlink arrangement and node name',
 'One test tries one dot-dot path on one method.',
 [AD,VFS],[('resolve-and-contain check','FileSystemAdapter._resolve and list'),('node-name check on export','VirtualFileSystem._export_directory')],observe=['host filesystem'])
p('C20','Python snippets get only the curated environment',
 'A snippet run through the Python helper sees as builtins only the curated set plus builtins its host supplied explicitly: no import, file-opening, code-evaluating, input or reflection builtins. Globals passed in cannot replace that set, nothing a run defines leaks into the next run or into the shared template, and its printed output is captured and returned.',
 ['programs','histories'],'every snippet and every sequence of runs',
 'Tests print two expressions.',
 [PY],[('curated builtins table and per-run environment','PythonExecutor.run/_ALLOWED_BUILTINS')],observe=['PythonExecutor.run'])
p('C21','Shell variables do not leak',
 'An assignment prefixed to a command is visible to that command only; only a command line made of assignments alone changes the variables of the shell. Variable expansion uses shell variables only, never the host environment, and no command changes the environment of the host process.',
 ['inputs','histories'],'every command line and sequence of command lines',
 'One test expands one prefixed assignment and never looks at the shell afterwards.',
 [SH],[('per-command copy of the variables','SandboxShell._exec_pipeline/_expand_vars')],[('env','shell variables',SH)],['echo $X, CommandContext.env'])
p('C22','Storage adapters reject stale writes',
 'An adapter write whose version differs from the current version of the stored entry is rejected and changes nothing. An accepted write stores the given text with a version exactly one higher, which is what the call, later reads and listings report, and entries handed out never alias the stored ones.',
 ['inputs','histories'],'every sequence of reads, writes, listings and deletions on each bundled adapter',
 'Tests perform two writes per adapter.',
 [AD],[('compare-and-set on the version','MemoryStorageAdapter.write, FileSystemAdapter.write/_refresh_version')],observe=['StorageAdapter.write/read/list'])
p('C23','Paths are normalised before they reach the tree',
 'Every path given to the filesystem is resolved against the current directory and normalised: empty, dot and dot-dot components never reach a name lookup, dot-dot removes one component and never climbs above the root. Every operation given equivalent paths addresses the same node, found by following exactly the named components from the root.',
 ['inputs'],'every path string and current directory',
 'Paths are unbounded strings; tests use plain absolute paths.',
 [VFS],[('normaliser and resolvers','VirtualFileSystem._normalize/_resolve_node/_resolve_dir/_ensure_file')],observe=['all path-taking methods'])
p('C24','Providers are lazy, cached and fail cleanly',
 'A provider-backed file is read by calling its provider until the file is written, after which the written text is what reads return. A directory provider runs only when the directory is accessed, at most once per load, and never replaces entries already present; a failing file or directory provider surfaces as a provider error and leaves the directory to be loaded again on the next access.',
 ['fault_sequences','histories'],'every provider behaviour and access sequence',
 'Tests use providers that succeed once.',
 [ND,PR],[('provider dispatch and load-once flag','VirtualFile.read/write, VirtualDirectory.ensure_loaded')],observe=['read_file, ls'])
p('C25','Search-view paths are scoped to the asking shell',
 'A search-view path is evaluated with the query in that path and the view of the shell that asked, and the ambient query context is put back on every exit, normal or not. Result nodes left in the tree carry the policy of the files they mirror, and search-view paths are refused as targets of creation, writing, removal, copying and moving.',
 ['inputs','histories','fault_sequences'],'every search path, interleaving of shells with different views on one filesystem, and failing command',
 'Tests use one unrestricted shell and look at one query at a time.',
 [SH,VFS],[('scoped query context','search_view_context/_maybe_search_context/_read_from_path'),('result tree construction','_build_search_tree')],observe=['cat, ls, find on /@search'])
p('C26','The host bridge runs on a private, synced-back copy',
 'A bridged host command is started only for a working directory the view admits, inside a temporary copy of the tree that is removed on every exit. After it ends, files it created or changed are written back through the ordinary policy-checked write, files it left unchanged are not rewritten, and files it removed are removed through the ordinary policy-checked removal.',
 ['inputs','fault_sequences'],'every host command, exit path and tree',
 'Tests run a handful of benign host commands.',
 [SH,VFS],[('materialise, run, sync back','SandboxShell._run_host_process/_sync_from_host/_remove_missing, VirtualFileSystem.materialize')],observe=['host temp dir, tree after the command'])
p('C27','Concurrent use from several threads is consistent',
 'Operations issued from several threads on one filesystem take effect as if executed one at a time.',
 ['schedules'],'every interleaving','No test uses threads.',[VFS],[('none: the code has no locks','sandfs/vfs.py')])
p('C28','Host-directory writes survive a crash intact',
 'After a crash during a write through a host-directory adapter the host file holds either the old or the new text.',
 ['crash_points'],'every crash point','No test crashes.',[AD],[('none: the file is truncated and rewritten in place','FileSystemAdapter.write')])
p('C29','Text utilities compute the documented results',
 'head, tail, wc, printf and echo output exactly the documented selection or count for every input text and option value.',
 ['inputs'],'every text and option value','Tests sample a few texts.',[SH],[('text commands','SandboxShell._cmd_head and siblings')])
p('C30','Quoting protects shell metacharacters',
 'A pipe or redirection character inside quotes is always an ordinary argument character and never an operator.',
 ['inputs'],'every command line','Tests quote words only.',[SP],[('tokeniser','sandfs/shell_parser.py')])
out=pathlib.Path(__file__).resolve().parent.parent/'properties.jsonl'
out.write_text(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
print(len(P))
