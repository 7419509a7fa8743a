SIM = "static path-sensitive abstract interpretation of the SSA form (helpers inlined, loops closed by inferred invariants, terms compared by value numbering); "
TRUST = " Trusts: the Go type checker and SSA builder (x/tools), the summaries of library functions listed in DESIGN.md, and that no code reaches the objects through unsafe or reflection."

prop("C01", "decrypted payloads were authenticated in full",
 """Decryption hands out a payload only if a collision-resistant digest stored in the file equals, over its full length, the digest recomputed over that same payload and over every byte of the file that precedes the ciphertext (magic, version, user entries, salts, IVs, wrapped master keys). On any mismatch, wrong passphrase or altered file the caller receives an error and no payload. The writer stores the digest of exactly those bytes, so every file it produces can be authenticated.""",
 ["inputs", "configurations"], "every encrypted file (any bytes), every user/passphrase/key argument, every supported file version that carries a digest",
 "the tests corrupt a handful of offsets of a handful of files; they cannot show that no byte is left out of the digest or that no path returns a payload before the comparison",
 ["crypt/crypto.go", "crypt/crypto_v1.go"], [("digest of header and plaintext", "crypt/crypto_v1.go decryptV1Single/decryptV1Multi, encryptV1Single/encryptV1Multi")],
 tech=SIM + "provenance of every byte range fed to the digest",
 note="Every feasible-by-abstraction path of Decrypt and Encrypt for file versions with a digest is decided; version 0 (no digest by format) is out of scope of the rule." + TRUST)

prop("C03", "malformed files never crash decryption",
 """Whatever bytes are given as an encrypted file (truncated, extended, with hostile counts or padding), decrypting it, asking whether it is multi-user and removing its padding return a value or an error and never panic. No slice, index, allocation, division or block-cipher call depends on the file's bytes without a preceding check that keeps it in range.""",
 ["inputs"], "every byte string and every user name",
 "the tests try a few truncations; the property quantifies over all byte strings",
 ["crypt/crypto.go", "crypt/crypto_v0.go", "crypt/crypto_v1.go", "pkcs7/pad.go"], [("length and count checks before slicing", "crypt/crypto_v1.go decryptV1Single/decryptV1Multi, crypt/crypto.go verifyMagic/IsMultiUser, pkcs7/pad.go Unpad")],
 tech=SIM + "linear-inequality bounds analysis of every input-dependent slice/index/make/CryptBlocks",
 note="Sound for the panics named (bounds, negative make, division, partial blocks) on values depending on the file bytes; other panic sources (memory exhaustion) are out of scope." + TRUST)

prop("C22", "editing a value leaves nothing behind and stores just what was edited",
 """The edit command runs the editor on a file that did not exist before; on every way out the file is removed, and before that the old and new values in it are overwritten as long as it can be opened. A value is stored only if the editor ended without an error and all of the file was read, and then it is that content and goes to the field that was edited."""
,["fault_sequences", "inputs"], "every outcome of every file operation and of the editor",
 "no test runs the edit command; leftovers appear only when an operation in the middle fails",
 ["commands.go", "osutil/osutil_linux.go"], [("editing in an external editor", "commands.go edit")],
 tech=SIM + "typestate of the temporary file on every path including deferred calls",
 note="Copies the editor itself makes are out of reach, as is a process killed while the editor runs." + TRUST)

prop("C25", "nothing that is typed, stored, imported or received can crash the program",
 """No command line, prompt answer, entry, imported file, remote file, known-hosts line, url or reply of a remote makes the program index, slice, make or divide out of range, use what came with an error as if there were none, assert a type without a way out, write to a nil map, or misuse those operations of its own that panic (asking for an entry that may not exist, reading a reserved key, nesting transactions). The functions that promise a range for their results (a menu choice, the user of a decrypted file) keep that promise.""",
 ["inputs", "histories", "fault_sequences"], "every argument and every result of every call, for each function of the program outside the cipher packages",
 "the tests feed well-formed input to a few functions; crashes come from the malformed line, the empty list, the negative number",
 ["repl.go", "commands.go", "uihelpers.go", "sync.go", "merging.go", "import.go", "passwd_gen.go", "blobformat/blobs.go", "txlogs/txlogs.go", "scpsync/scpsync.go", "fuzzy/fuzzy.go", "main.go"], [("command dispatch", "repl.go"), ("remote input", "sync.go, scpsync/scpsync.go"), ("lookups that panic", "blobformat/blobs.go MustFind")],
 tech=SIM + "linear-inequality bounds proof of every slice, index, make and divide; helpers whose safety depends on how they are called are judged in their callers",
 note="Crypt and pkcs7 are C03's. Assumed, and counted in the evidence: an entry always has a name; positions collected from a list stay valid for it; a transaction only adds to the log. Memory exhaustion, stack overflow and panics inside libraries are out of scope." + TRUST)

prop("C20", "a change that was refused is not announced as made",
 """When the store refuses or fails a change that a command asked for, the command ends with an error or prints a message it does not print when the change is made. It does not go on to print what it prints after a change that was made.""",
 ["inputs", "histories"], "every call in the program of an operation that changes entries and can fail, on every path of the function it is in, for any entries, answers and arguments",
 "an ignored error shows only for the one key, name or entry that is refused, and what is printed is not tested at all",
 ["commands.go", "import.go", "sync.go", "merging.go", "repl.go"], [("commands that change entries", "commands.go set, edit, rename, deleteKey, addLabels, deleteLabel, addNew"), ("operations that refuse", "blobformat/blobs.go Set, DeleteKey, Rename, New, SetTwofactor, RemoveLabel")],
 tech=SIM + "obligation for the error of every call, discharged at exit by what was returned and which output calls lie on the path, compared with the paths on which it is nil",
 note="What the messages say is not judged, only that they differ; an operation on a fixed field that is not refused cannot fail. Errors compared with the sentinels the program uses to leave are not failures." + TRUST)

prop("C21", "success is reported only when everything was done and saved",
 """Whenever the program ends with a successful exit status, none of the steps it took failed: the file was opened, synchronized, worked on and saved without an error. After the last step that could have changed the contents of the file it was saved, unless it was opened read-only.""",
 ["fault_sequences", "histories"], "every outcome of every step of the program's main function",
 "no test runs the program; an error that is overwritten before the exit status is chosen is invisible to unit tests",
 ["main.go"], [("choice of the exit status", "main.go main")],
 tech=SIM + "typestate of unsaved changes and pending errors along every path of main",
 note="Errors that are dealt with inside a step (a remote that cannot be reached) are that step's business." + TRUST)

prop("C27", "nothing copied from a file stays on the clipboard",
 """After a file was opened, every way out of the program that follows something that can copy to the clipboard clears the clipboard, unless clearing was turned off by its flag. No function that runs in between ends the program on its own.""",
 ["histories", "fault_sequences"], "every way out of the program, with every step failing or not",
 "no test runs the program or looks at the clipboard",
 ["main.go", "sync.go", "commands.go"], [("clearing the clipboard", "main.go main"), ("copying", "commands.go copyToClipboard")],
 tech=SIM + "typestate of the clipboard along every path of main, call-graph search for early exits",
 note="A crash, a signal or a failing clipboard command leaves the clipboard as it is; the password generator subcommand opens no file and is meant to leave the password on the clipboard." + TRUST)

prop("C23", "generated passwords are uniformly random and only real ones are accepted",
 """Every character of a generated password is an element of an alphabet, chosen by a number that the operating system's random source drew from exactly the range it chooses from, and afterwards all positions are shuffled by uniformly drawn swaps. If drawing fails or the requirements are impossible there is an error and no password; the prompt hands out a password only if it was generated without an error or typed the same twice.""",
 ["inputs", "fault_sequences"], "every setting, every failing draw, every sequence of answers at the prompt",
 "a test sees one password; bias, a predictable source and a shuffle that leaves positions alone do not show in it",
 ["passwd_gen.go", "uihelpers.go"], [("generator", "passwd_gen.go genPassword"), ("prompt", "uihelpers.go getPassword")],
 tech=SIM + "provenance of every index from a draw of exactly the indexed range, induction-variable coverage of the shuffle",
 note="That a password has the requested length and at least the requested number of each kind is not decided: it needs the sum over a list of settings." + TRUST)

prop("C17", "conflicts are decided by the user, each exactly once",
 """Every conflict that merging reports is put to the user and gets exactly one decision: logs without a common start are joined only after a yes, a deletion is discarded only after R and a change only after D, once the key that was changed was shown. Decisions made stay in force for the rest of the merge. What is used as merged is the outcome of a merge that left no conflict open; otherwise merging is given up with an error."""
,
 ["inputs", "histories"], "every pair of logs, every list of conflicts, every sequence of answers including the end of input",
 "no test drives the questions: they need a terminal, and the tests of merging stop at the list of conflicts",
 ["merging.go", "txlogs/txlogs.go"], [("questions", "merging.go mergeLogs"), ("decisions", "txlogs/tx.go Conflict")],
 tech=SIM + "typestate of each conflict and of the list of decisions handed to the next merge",
 note="What Merge does with the decisions is C16. That a user answers eventually is assumed." + TRUST)

prop("C18", "entry names are unique and reserved fields cannot be set by hand",
 """Creating or renaming an entry succeeds only if none of the current entries has the name that is stored, and an entry that is created always gets a name. A field named by the user is set only if it is none of the reserved ones (name, time of update, two-factor secret, salt, IV and wrapped key) in any letter case, and deleted only if it is none of them but the two-factor secret; what is refused is reported as an error and changes nothing. A two-factor secret is stored only if it could be parsed."""
,
 ["inputs", "histories"], "every store, every name and every field name in any letter case",
 "the tests create and rename a few entries; that every entry is compared, against up to date contents, and that no other place writes a name or a field named by the user does not show in them",
 ["blobformat/blobs.go", "blobformat/constants.go", "commands.go", "import.go", "sync.go"], [("names", "blobformat/blobs.go New, Rename"), ("reserved fields", "blobformat/blobs.go Set, DeleteKey; blobformat/constants.go protectedKeys"), ("two-factor secrets", "blobformat/blobs.go SetTwofactor")],
 tech=SIM + "tri-state analysis of the pass over all entries, exclusion of every reserved constant at every write, provenance of the field names written elsewhere",
 note="Names that collide because two logs were merged are not covered (nothing renames them). Users' salts, IVs and keys set by the commands for users are C05." + TRUST)

prop("C19", "every change of an entry is dated",
 """Creating or renaming an entry, setting or deleting one of its fields or its two-factor secret, and adding or removing a label each set the time of the update of that very entry to the current time, in nanoseconds. That time is read back as it was written."""
,
 ["inputs", "histories"], "every operation on every entry, on every path on which it changes something and does not fail",
 "a test that looks at one operation does not show that no path of any operation leaves the time as it was",
 ["blobformat/blobs.go", "blobformat/blob.go"], [("time of the update", "blobformat/blobs.go touchUpdated and its callers"), ("reading it", "blobformat/blob.go Updated")],
 tech=SIM + "typestate of the changed and of the dated entry along every path",
 note="The commands that write fields of an entry they just created or of a user's keys on purpose do not date them again." + TRUST)

prop("C26", "the program builds on every platform it supports",
 """Every package of the module type-checks under the build constraints of each supported operating system (linux, darwin, windows), so that no platform-specific file refers to something that exists only elsewhere.""",
 ["configurations"], "the cross product of packages and supported GOOS values",
 "the tests run on linux only; files excluded by build constraints are never compiled there",
 ["osutil/osutil_darwin.go", "osutil/osutil_linux.go", "osutil/osutil_windows.go", "readline.go", "noreadline.go"], [("per-platform files", "osutil/osutil_*.go")],
 tech="type-checking of the whole module once per platform configuration",
 note="Complete for type errors under the default tags of GOOS=linux,darwin,windows amd64.")

prop("C02", "salts, IVs and master keys are fresh CSPRNG output",
 """Every salt made when a key is derived, every master key and its IV, every IV that wraps a master key and every IV that encrypts a single-user file is freshly generated for that call: the whole value comes from the operating system's cryptographic random source and a failure to obtain randomness is an error, never a weaker value. A derived key is bound to exactly the salt returned with it, through the memory-hard key derivation at no less than 2^17 cost.""",
 ["inputs", "configurations", "fault_sequences"], "every call, every supported version, every failure of the random source",
 "a test can see that two outputs differ; it cannot see a half-filled buffer, a reused one on a rare path, or an ignored error",
 ["crypt/crypto.go", "crypt/crypto_v1.go"], [("random buffers", "crypt/crypto.go DeriveKey, crypt/crypto_v1.go newMasterKeyV1/encryptMasterKeyV1/encryptV1Single")],
 tech=SIM + "typestate of random-filled buffers",
 note="Decides every path of the four exported functions. Multi-user payload IVs belong to the master key by design of the format and are not covered." + TRUST)

prop("C04", "a cached key opens only the salt and user it belongs to",
 """When a file is decrypted, a key cached by the caller is used only if the caller's salt equals the salt the file stores for the selected user; otherwise the key is derived from the passphrase and that stored salt. The parameters returned on success hold, for the selected user, exactly that key and salt. The selected user of a multi-user file is only ever the entry whose stored name hash equals the hash of the given user name; a user the file does not contain never uses another user's entry.""",
 ["inputs", "histories"], "every file, user name, passphrase and cached key/salt pair",
 "tests use one or two users and matching salts; the property quantifies over all combinations of cached and stored salts",
 ["crypt/crypto.go", "crypt/crypto_v1.go"], [("salt comparison and derivation", "crypt/crypto_v1.go decryptV1Single/decryptV1Multi")],
 tech=SIM + "value provenance of key, salt and selected user at every successful exit",
 note="Decides every path of Decrypt for digest-carrying versions and the legacy path." + TRUST)

prop("C13", "rollback undoes exactly the transactions since Begin",
 """After Begin, any number of changes and a Rollback, the log holds exactly the transactions it held at Begin, in the same order, and no entry read afterwards shows any effect of a discarded change, whether or not entries were read in between. Commit keeps every change and ends the transaction; starting one while another is open, and ending one when none is open, is refused without moving or losing the rollback point. The scoped form commits exactly if the function given to it succeeds and otherwise rolls back and reports the failure.""",
 ["histories", "inputs"], "every history of changes between Begin and Commit/Rollback, with or without snapshots built in between",
 "the tests roll back a couple of short histories; which snapshot survives depends on when it was built relative to Begin",
 ["txlogs/txlogs.go"], [("rollback point and snapshot discard", "txlogs/txlogs.go Begin, Commit, Rollback, Do")],
 tech=SIM + "prefix relation between the log at Begin and after Rollback, and coherence of snapshot version with log length",
 note="Decided for every path of Begin, Commit, Rollback and Do from an arbitrary coherent database; panics inside the function given to Do are out of scope." + TRUST)

prop("C14", "what is read is exactly what the log says",
 """The entries a user sees are always the result of applying the logged transactions, each exactly once and in order, to an empty store: adding creates an empty entry and fails if it exists, setting and deleting keys change exactly that key of an existing entry, deleting removes it, and an inapplicable transaction is reported and changes nothing. Bringing the entries up to date covers the whole log or reports an error, and a view of an earlier version covers exactly the transactions up to it and never disturbs the current entries. No code changes entries other than through a transaction, wherever the program reads entries they were brought up to date after the last replacement of the log, and a replaced or shortened log always discards the entries computed from the old one.""",
 ["histories", "inputs"], "every log and every sequence of snapshot updates, log replacements and reads in the program",
 "tests apply a few fixed logs in one package; whether every reader in the program has an up-to-date snapshot depends on all paths to it",
 ["txlogs/txlogs.go", "blobformat/blobs.go", "sync.go", "export.go", "main.go"],
 [("transaction application", "txlogs/txlogs.go UpdateSnapshot, SnapshotAt and the apply function"), ("readers of DB.Snapshot", "blobformat/blobs.go, sync.go, export.go")],
 tech=SIM + "per-kind meaning of a transaction, ghost counter of applied entries; plus an interprocedural must-dataflow (snapshot freshness) over every load of DB.Snapshot and store to DB.Log in the program",
 note="The application and the loops are decided for all logs; freshness is decided for every read outside package txlogs, where appends made by commands between UpdateSnapshot and the read are tolerated outside blobformat." + TRUST)

prop("C15", "the history is append-only and every change is dated and saved",
 """Outside of Rollback and merging, existing transactions are never altered, reordered or dropped: changes only append one dated transaction each, and merged or restored logs are whole logs. Every field of a transaction is written to and read back from the file, and what is written is always the whole log of the database, never a part of it.""",
 ["histories", "inputs"], "every sequence of commands and every place in the program that writes the log or a transaction",
 "tests look at the log after a few fixed changes; that no code path anywhere rewrites, truncates or forgets to date an entry is a statement about all code",
 ["txlogs/txlogs.go", "txlogs/tx.go", "blobformat/blobs.go", "merging.go", "sync.go"],
 [("appending transactions", "txlogs/txlogs.go Add, Set, Delete, DeleteKey"), ("saving and loading the log", "txlogs/txlogs.go New, NewLog, Save; txlogs/tx.go")],
 tech="static effect analysis: every store to a transaction, to DB.Log and to slices of transactions in the program is classified by value provenance over the SSA form; JSON field reachability from types",
 note="Every store in the module is classified; aliasing of log slices through interfaces or reflection is not followed." + TRUST)

prop("C16", "merging loses, invents and reorders nothing",
 """Merging two logs yields every transaction of both exactly once, shared heads only once, in time order, unless a resolution given for exactly that deletion discards one side of it. A change to an entry after its deletion, and logs without a common start, are reported as conflicts unless resolved, and while any conflict is open no merged log is handed out. A log is returned unmerged only if both have equal length and the same first and last instant.""",
 ["inputs", "histories"], "every pair of logs and every list of resolved conflicts",
 "the tests merge a dozen small logs; the property quantifies over all interleavings of two logs of any length and all resolutions",
 ["txlogs/txlogs.go"], [("three-loop merge and conflict detection", "txlogs/txlogs.go Merge and its conflict closure, txBefore")],
 tech=SIM + "ghost counters of consumed entries kept as sets of equal terms, relational widening at loop heads",
 note="All paths of Merge for all logs and resolutions, loops closed by widening. Time order is decided between the heads of the logs; that each input log is itself ordered is the caller's." + TRUST)

prop("C05", "credentials always change as a whole",
 """Every command that adds a user, changes a passphrase or key, or removes users leaves each entry of a user either untouched or with a salt, IV and wrapped master key that belong together and open the master key the session ends up with. The session's passphrase, key and salt change together and come from one derivation of that passphrase, exactly when the user that is changed is the one logged in; a new master key is wrapped for every user before it is taken over. Opening or creating a file takes all of them from that file.""",
 ["inputs", "histories", "fault_sequences"], "every command that changes credentials, every user name and session state, every failing derivation, prompt or wrapping",
 "no test runs these commands; whether a file can still be opened by each of its users after the next save depends on combinations of users, sessions and failures",
 ["commands.go", "main.go", "blobformat/blobs.go"], [("user and key commands", "commands.go addUser, passwd, rekey, rekeyAll, rmUser; main.go loadBlob")],
 tech=SIM + "provenance of every credential written to the session or an entry, at every exit of a command that can report success",
 note="Roots are the registered commands and functions main calls that write credentials. Entries of users are written through the log; failures of those writes are C20's." + TRUST)

prop("C06", "a file opened in the past is never changed",
 """When a time is given on the command line, the session is read-only from before the file is opened until the program ends: nothing is saved or synchronized, and only commands that cannot change the log, the credentials, a file or a remote are run. What such a session shows is exactly the beginning of the file's log, up to the first change made after the given time. Without a time nothing is cut off."""
,["inputs", "histories"], "every time, log, command line and flag combination",
 "no test opens a file at a time; whether some combination of commands and flags saves the shortened log over the file is a question about all paths",
 ["main.go", "repl.go", "sync.go"], [("read-only mode", "main.go main, loadBlob, saveBlob; repl.go run, replCmds")],
 tech=SIM + "path conditions at every save, sync and command dispatch; effect analysis of the commands marked read-only",
 note="Effects of commands are those of the functions reachable from them in the call graph; files are written through the functions of os, io/ioutil and scpsync." + TRUST)

prop("C07", "only encrypted data leaves the program",
 """Whatever the program writes to a file or sends to a remote is the output of the encryption; the only exceptions are the export and the temporary file of the edit command, which exist to hold plain values. Lines typed at a prompt are not kept in a history file."""
,["inputs", "programs"], "every write in the program and every value that can reach it",
 "tests look at what one call returns, not at everything that is ever written and where it came from",
 ["main.go", "sync.go", "export.go", "commands.go", "readline.go", "scpsync/scpsync.go"], [("writing", "main.go saveBlob, writeFile; sync.go pushBlob; scpsync Send")],
 tech="backward data flow over the SSA form: the sources of the data of every write, through parameters of all callers, results, variables and fields",
 note="Sinks are the writing functions of os, io/ioutil, io and fmt on files, and scpsync.Send; network packages are not to be used otherwise. The clipboard, the terminal and the pipes to child processes are no sinks." + TRUST)

prop("C08", "files the program creates are private to their owner",
 """Every file or directory the program creates, locally or at a remote, gets permissions for its owner only. Changing the permissions of an existing file can only keep those it has or make it private."""
,["inputs", "programs"], "every call that creates a file or sets permissions and every value of the permissions",
 "no test looks at the permissions of what is created",
 ["main.go", "sync.go", "export.go", "commands.go", "scpsync/scpsync.go"], [("creating files", "export.go export; commands.go edit; main.go writeFile; sync.go sshPush")],
 tech="backward data flow from the permission argument of every creating call to constants",
 note="The umask can only take permissions away. Existing files that are opened keep theirs." + TRUST)

prop("C09", "saving replaces a file as a whole or not at all",
 """Saving, and pushing to a file, never write into the file itself: encrypted data is written completely to a new file in the same directory, flushed and closed, and only when all of that and the encryption succeeded is it moved over the old file. Success is reported only if that happened, and otherwise the new file is removed and the old one is still there as it was."""
,["crash_points", "fault_sequences", "inputs"], "every step of saving that can fail or be interrupted",
 "no test interrupts a save or lets a write, flush or rename fail",
 ["main.go", "sync.go"], [("replacing files", "main.go saveBlob, writeFile; sync.go pushBlob")],
 tech=SIM + "typestate of the temporary file from creation to rename on every path, with every call failing or not",
 note="rename(2) in one directory is taken to be atomic; the exported file is written in place. Remote files are replaced by the remote's scp." + TRUST)

prop("C10", "remotes are only overwritten with what includes them",
 """A sync pushes only after every remote was pulled from and merging succeeded, and what it pushes is what was saved after the merge. It pushes to a remote only if what was pulled from it was decrypted, read and handed to the merge, is identical to something that was, or the remote has no file yet; one that could not be read is left alone. That there is no file is concluded only from a file-not-found error, and pulling reports success only with everything that was read."""
,["histories", "fault_sequences", "inputs"], "every list of remotes, each failing at any step of being pulled, opened or merged",
 "no test synchronizes at all, let alone with a remote that fails half-way",
 ["sync.go", "scpsync/scpsync.go"], [("pull, merge, push", "sync.go sync, pullBlob, pushBlob"), ("missing files", "scpsync/scpsync.go IsNotFoundErr")],
 tech=SIM + "per round of the pull loop, what is known of the pulled data when the remote stays on the list to push to; per push, the merge's outcome and the data's origin",
 note="A remote changed by someone else between the pull and the push is overwritten: the protocol has no locking." + TRUST)

prop("C12", "no file is exchanged with an unverified ssh host",
 """An ssh connection is accepted only if the address dialed has a remembered key whose type and hash both equal those of the key presented, or has none and the user typed y or Y; a remembered host with another key is refused without asking. A host is remembered only after the user agreed, with its name, address, key type and key hash in the order in which they are compared. Every ssh connection is made with this check, using the known hosts of the very entry that is synchronized."""
,["inputs", "histories"], "every host name, key, remembered list of hosts and answer",
 "no test connects to a host, and a changed key is accepted silently",
 ["sync.go"], [("host keys", "sync.go hostAsker.callback, sshPull, sshPush, saveHosts")],
 tech=SIM + "what is compared on every path on which the callback accepts a key; provenance of the callback and known hosts of every ssh configuration",
 note="The ssh library is trusted to call the callback and to stop when it fails; SHA-256 is taken to be collision free." + TRUST)

prop("C11", "a sync takes over credentials whole or not at all",
 """Synchronizing either keeps the session's user, passphrase, key, salt, master key and its IV, or takes all of them from one remote exactly as that remote was opened, together with the merged log and only if no merge was aborted. Each remote is merged into, and its credentials compared with, the outcome of the merges before it: of two files without users the one changed last wins (the user is asked on a tie), of a file with users and one without the kind the merged log is, and of two master keys the one that wraps the user's entry in the merged log. What is remembered of a remote comes from the one decryption that succeeded.""",
 ["inputs", "histories", "fault_sequences"], "every list of remotes of any kind and every answer or failure while merging them",
 "no test merges remotes with different credentials, let alone several at once",
 ["merging.go", "sync.go"], [("credential adoption", "merging.go mergeBlobs; sync.go sync, decryptBlob")],
 tech=SIM + "the six credentials of the running result compared at every iteration of the merge loop",
 note="Which log wins inside one merge is C16's. The prompts are arbitrary answers." + TRUST)

prop("C28", "a saved file can be opened by exactly the users in it",
 """What is saved or pushed is the whole saved store. If the session has a master key, the file is encrypted with it, and its header has exactly one record for every user entry of the store and no others, made of the hash of that user's name and the salt, IV and wrapped key of that very entry; no user is left out silently. Otherwise the file is encrypted with the session's own key and salt and lists no users.""",
 ["inputs", "histories"], "every store with any number of users in any state, and every session",
 "no test saves a file with several users from a session; a user that is left out or mixed up notices only when the old file is gone",
 ["uicontext.go", "blobformat/blobs.go", "main.go", "sync.go"], [("parameters of the encryption", "uicontext.go makeParams"), ("users of a store", "blobformat/blobs.go Users, IsUserEntry"), ("saving", "main.go saveBlob; sync.go sync")],
 tech=SIM + "per round of the loop over the users what is added to the header and whose it is; backward data flow of the arguments of every encryption",
 note="That the values in an entry belong together is C05; that the writer of the format puts them where the reader expects them is tested and partly C01. If the header lists are filled by index instead of by appending, only their source loop and counts are judged." + TRUST)

prop("C29", "a transfer over ssh counts as done only if all of it arrived",
 """An upload succeeds only after the size of the contents, all of them and the end mark were sent, an answer of the remote was read that reports no problem, and the remote program ended without an error. A download succeeds only with exactly the announced number of bytes, all of them read from the remote and followed by its mark that it could read the whole file, and if the remote program ended without an error.""",
 ["fault_sequences", "inputs"], "every answer of the remote and every point at which it or the connection fails",
 "tests transfer files between programs that work; a connection that ends early or a remote without space are not tried",
 ["scpsync/scpsync.go"], [("upload", "scpsync/scpsync.go Send, sendFile, readResponse"), ("download", "scpsync/scpsync.go Recv, readFile")],
 tech=SIM + "typestate of the protocol over all paths of both directions, and the facts known on every exit without an error",
 note="That io.ReadFull, io.Copy and the ssh session report what goes wrong is trusted. The remote's acknowledgements before the last one are not waited for, so that all is well is known from its exit status, which is required. What sync does with a transfer that failed is claimed elsewhere." + TRUST)

prop("C30", "who can open a file changes only by managing users",
 """Adding, importing and renaming entries never turns an ordinary entry into a user or a user into an ordinary entry: users are only made together with their salt, iv and wrapped key, and always have a name. When the session's own user is renamed the session goes on as the renamed user, and it can only be deleted when there is no other user, upon which the session drops the master key so that the file is saved for its own passphrase."""
,
 ["inputs", "histories"], "every name that is typed or imported and every sequence of commands that make, rename and delete entries",
 "tests do not manage users at all; a wrong name makes the whole session impossible to save, or locks a user out, only at its end",
 ["blobformat/blobs.go", "commands.go", "import.go"], [("names of entries", "blobformat/blobs.go New, NewUser, Rename"), ("users and the session", "commands.go adduser, rename, deleteEntry")],
 tech=SIM + "what is known about a name and the entry's name before wherever a name is written, and about the session's user wherever entries are renamed or deleted",
 note="Names brought in by merging another copy of the file are taken as they are. That names are unique is C18, that the credentials of a user fit together is C05." + TRUST)

prop("C33", "one-time codes come from the entry's own secret at this moment",
 """A one-time code that is shown or copied was computed without an error from the secret stored in the entry that was selected and for the time of the clock at that moment; only keys of time-based codes yield codes. Where no code can be computed there is an error, and the stored secret is never shown or copied in place of the code. The secret that is stored for an entry is the one that was typed.""",
 ["inputs", "histories"], "every stored secret, time and selected entry",
 "tests compute no code with a secret they know at a known time", ["blobformat/blob.go", "blobformat/blobs.go", "commands.go"], [("codes", "blobformat/blob.go TwoFactor"), ("storing", "blobformat/blobs.go SetTwofactor"), ("showing", "commands.go get, login, show")],
 tech=SIM + "what is handed to the library that computes codes, what is handed out, and which values the functions that show or copy codes use",
 note="That the library computes codes as the standard says is trusted. Keys that ask for other than six digits every thirty seconds are computed with these usual settings. dump, dumpall, export and edit show what is stored on purpose." + TRUST)

prop("C31", "what was encrypted decrypts to the same bytes",
 """Decrypting what the program encrypted, with the credentials it was encrypted for, yields exactly the bytes that were given to the encryption, for every content, every number of users and every supported version of the file format.""",
 ["inputs", "configurations"], "every content, number of users, credentials and version",
 "tests try a few contents", ["crypt/crypto.go", "crypt/crypto_v1.go", "pkcs7/pad.go"], [("reader and writer of the format", "crypt/crypto_v1.go")],
 na="It is an equation between the results of a chain of ciphers run forwards and backwards; that they are inverse to each other is arithmetic inside crypto libraries and no dataflow, typestate or effect argument over this source bounds it. The parts that are questions of layout and provenance are claimed as C01, C02, C03 and C04.")

prop("C32", "a search returns exactly the entries that match",
 """Searching by name or by labels returns all entries that match what was typed and no others, for every store and every text that is typed.""",
 ["inputs", "histories"], "every store and every text typed",
 "tests search a few entries", ["blobformat/blobs.go", "fuzzy/fuzzy.go"], [("matching", "fuzzy/fuzzy.go Match; blobformat/blobs.go Search, SearchLabels")],
 na="What matches is itself defined by the fuzzy matcher's loop over unbounded text, so a rule would restate that loop; the set of results is a value over an unbounded store that no static argument in reach relates to it. That a search cannot crash and reads up to date entries is claimed as C25 and C14.")

prop("C34", "generated passwords have the length and composition asked for",
 """A generated password has exactly the length asked for and at least the requested number of characters of each kind, for every setting that is accepted.""",
 ["inputs"], "every setting",
 "tests generate a few", ["passwd_gen.go"], [("composition", "passwd_gen.go genPassword")],
 na="It needs the sum of the minimums over a list of settings to be compared with the length, and the number of characters of each kind in the result to be counted: quantities over an unbounded list for which linear invariants are not enough. How each character is chosen is claimed as C23.")
