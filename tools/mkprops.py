#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in (state or [])],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None))
    P.append(d)
SD="src/snapshot/diff.rs"; CH="src/snapshot/changes"
p("C01","Staging converges on the definitions",
 "After a successful `stage`, replaying the changes recorded in every version from init through the stage reproduces exactly the catalog the definitions describe, in every attribute of every schema, table, column, constraint, index, view, sequence and function. A second `stage` with unchanged definitions records nothing more.",
 ["inputs","histories"],"every pair (recorded catalog, well-formed definitions), reached through any history of edits, stage, reset and make",
 "The unit tests call compare_diff on one object with one attribute changed at a time and never apply the result; convergence is a statement about all catalog pairs and about diff, apply and the YAML files together.",
 [SD,CH,"src/history/snapshot.rs","src/cmd/stage.rs"],
 [("compare_diff",SD),("Change::apply",CH+"/mod.rs"),("calculate_snapshot","src/history/snapshot.rs")],
 ["changes in history/*.yaml after podo stage","output of a second podo stage"],
 [("stage.changes","recorded change list","history/stage.yaml")])
p("C02","Down migrations restore the previous schema",
 "For every version, running its recorded down script on the database as that version's up script left it returns the database to exactly the catalog it had before: no object or attribute is lost, added or altered. This composes over any number of versions, back to the initial one.",
 ["inputs","histories"],"every version podo can generate, and every sequence of up and down over a chain of them",
 "Tests never execute a down script nor compare revert against apply; invertibility must hold for every change in every context (a revert reads the state before the change).",
 ["src/cmd/stage.rs",CH,"src/history/version.rs","src/cmd/down.rs"],
 [("Change::revert",CH+"/mod.rs"),("Version::add_down prepends","src/history/version.rs")],
 ["down statements executed against the server by podo down"])
p("C03","Up migrations build exactly the recorded schema",
 "Executing the recorded up scripts in order from the initial version produces, in the database, exactly the catalog the recorded changes describe: the SQL of each change has the same effect as the change itself, with no attribute (nullability, default, type, constraint columns and options, index method and uniqueness, sequence options, function properties, view query) dropped, inverted or misspelt.",
 ["inputs"],"every change kind with every combination of attribute values",
 "No test renders SQL and compares its meaning with the change; the introspection tests need a server and do not run here.",
 [CH,"src/util/sqlfmt.rs"],[("Change::render_sql",CH+"/mod.rs")],["up statements in history/*.yaml and as received by the server"])
p("C04","Generated scripts are executable in the order recorded",
 "In every recorded up script and down script, each statement is valid PostgreSQL and is acceptable when its turn comes: it never creates what exists, never refers to a schema, table, column, constraint, sequence or key that does not exist yet, and never drops anything that something still depends on. This holds for any set of simultaneous changes and regardless of unordered-container iteration.",
 ["inputs","programs"],"every pair of well-formed catalogs, both directions, and every iteration order of the internal maps",
 "Diff iterates randomly seeded hash maps, so order is a fresh choice on every run; tests diff a single object, where no order exists.",
 [SD,"src/cmd/stage.rs",CH],[("ordering of compare_diff",SD),("reversed down list","src/history/version.rs")],
 ["order of statements in history/*.yaml"])
p("C05","up and down are all-or-nothing",
 "If `up` or `down` fails at any point - a statement is rejected, the connection is lost, the process is killed - the database schema and the ledger of applied versions are exactly as before the command (when the connection is lost while the commit itself is in flight, exactly as before or exactly as after). If it reports success, all of its effects are committed together; there is never a committed state with a version half applied, or applied but not recorded, or recorded but not applied.",
 ["crash_points","fault_sequences","histories"],"every failure point (each statement and each protocol message) of every up/down over any chain of versions",
 "Tests never run up or down; atomicity is about every possible failure point.",
 ["src/cmd/up.rs","src/cmd/down.rs","src/history/dbh.rs"],
 [("one transaction per command","src/cmd/up.rs"),("one transaction per command","src/cmd/down.rs")],
 ["committed catalog and ledger at the server"])
p("C06","up applies every pending version exactly once, in order",
 "`up` executes exactly the up statements of the versions between the database's current version and the requested one (default: the newest version, never the stage), oldest first, each exactly once, and appends each to the ledger with the scripts and changes recorded in its file. When there is nothing to apply it changes nothing; when the requested version is unknown or not ahead of the database it fails and changes nothing.",
 ["histories","inputs"],"every chain length, every current version, every target, every interleaving with make/stage/down",
 "Tests never execute up; the range computation depends on the whole history and the ledger.",
 ["src/cmd/up.rs","src/history/fsh.rs","src/history/dbh.rs"],
 [("get_upward_range","src/history/fsh.rs"),("save_version","src/history/dbh.rs")],
 ["statements and ledger rows committed at the server"],
 [("ledger","applied versions in order","<metadata schema>.version")])
p("C07","down unwinds the ledger exactly",
 "`down` reverts the versions applied after the requested one (default: only the newest), newest first, running exactly the down scripts that were stored when each was applied - even if the files have changed or vanished since - and removes exactly those rows from the ledger. At the requested or the initial version it changes nothing, and a version that is not applied is refused without effect.",
 ["histories","inputs"],"every ledger, every target, any edit or loss of history files in between",
 "Tests never execute down; depends on stored rows and application order.",
 ["src/cmd/down.rs","src/history/dbh.rs"],[("get_downward_range","src/history/dbh.rs"),("stored down scripts","src/history/dbh.rs")],
 ["statements and ledger rows committed at the server"])
p("C08","make freezes the stage into a new immutable version",
 "`make` moves the staged changes and scripts verbatim into one new version, named after the label it is given and placed at the tip of the history and leaves an empty stage on top of it; with an empty stage it changes nothing. No command ever alters, renames, re-parents or removes an already made version, even when two versions are made with the same label or within the same second.",
 ["histories","inputs"],"every history, every label, any timing between makes",
 "Tests never run make; immutability quantifies over all later commands.",
 ["src/cmd/make.rs","src/history/fsh.rs","src/history/version.rs"],[("make","src/cmd/make.rs"),("save_version","src/history/fsh.rs")],
 ["contents of the history directory"])
p("C09","stage and reset touch only the stage",
 "`stage` only appends to the stage - already staged changes and up statements keep their place, new down statements go in front - and modifies no other version, no definition and no database. `reset` empties the stage and changes nothing else, after which the pending difference is again the whole difference between the tip version and the definitions.",
 ["histories","inputs"],"every history and definitions, any interleaving of commands",
 "Tests never run the commands; the claim is about all files under all histories.",
 ["src/cmd/stage.rs","src/cmd/reset.rs","src/history/version.rs"],[("Version::add_change/add_up/add_down/reset","src/history/version.rs")],
 ["contents of the history and definitions directories"])
p("C10","Inconsistent histories are refused without effect",
 "When the history directory is not a single chain starting at init - two versions with the same predecessor, a cycle, a version or predecessor that is missing from the chain a command has to walk, an unreadable version file - the command that needs it ends with an error, in bounded time, having changed neither files nor database.",
 ["inputs","configurations"],"every malformed history directory",
 "Only well-formed values are built in tests; the loaders are never given a corrupt directory.",
 ["src/history/fsh.rs","src/history/snapshot.rs"],[("FSHistory::from_dir Branched","src/history/fsh.rs"),("get_upward_range Unreachable","src/history/fsh.rs")],
 ["exit status, duration, files and database after the command"])
p("C11","A crash never corrupts the history directory",
 "If stage, reset or make is killed at any moment, every version file is either as before or as the completed command would leave it, never truncated or half written; the history still loads, and re-running the command completes the work without losing staged changes or made versions.",
 ["crash_points","fault_sequences"],"every point between two file-system operations of each command, over any history",
 "Needs the process killed between particular system calls.",
 ["src/history/fsh.rs","src/cmd/make.rs"],[("save_version","src/history/fsh.rs"),("order of the two saves in make","src/cmd/make.rs")],
 ["contents of the history directory after the kill"])
p("C12","Definitions mean the same however they are written",
 "The catalog read from the definitions directory does not depend on how many files or sub-directories it is split over, on the order of files or of entries, or on defaults being spelt out, and every documented attribute is honoured. Definitions that are malformed, define the same object twice or use unknown keys are refused with an error, leaving stage and history untouched.",
 ["inputs"],"every way of writing every definition; every malformed variant",
 "Unit tests parse one fixed node per kind, in one order.",
 ["src/definition"],[("load_snpashot","src/definition/mod.rs"),("parse_*_definition","src/definition/ddl")],
 ["what podo stage records for the definitions"])
p("C13","clone reproduces the live schema",
 "`clone` writes definitions that describe the connected database's public schema exactly: staging them afterwards yields a catalog equal to the live one in every object and attribute podo supports, and clone modifies neither the database nor the history.",
 ["inputs"],"every live catalog within podo's vocabulary, also beside objects outside of it (materialized views, foreign tables, procedures, aggregates, members of extensions, domains, dropped columns) and checks that are not valid yet or not inherited",
 "The introspection tests need a server and check one hand-written object per kind; rendering to YAML and back is checked per kind on one value.",
 ["src/introspection","src/cmd/clone.rs","src/definition/ddl"],[("introspect","src/introspection/mod.rs"),("render_*_definition","src/definition/ddl")],
 ["definitions written by podo clone, then podo stage"])
p("C14","Concurrent migrations never corrupt the database",
 "When two up or down commands run against the same database at once, in any interleaving of their statements, the committed outcome equals running some of them one after the other: no version is applied twice, none is recorded without being applied, and a command that loses the race fails without effect.",
 ["schedules"],"every interleaving of two sessions' statements",
 "Tests run nothing against a server, let alone two sessions.",
 ["src/cmd/up.rs","src/cmd/down.rs","src/history/dbh.rs"],[("transaction + primary key on the ledger","src/history/dbh.rs")],
 ["committed catalog and ledger at the server"])
p("C15","init creates a working project and never overwrites one",
 "`init` in a directory without a project creates a configuration, an empty public definition, an init version and an empty stage that agree with one another. Run inside an existing project, including from a sub-directory or where existing files are damaged, it alters no existing file.",
 ["configurations","histories"],"every prior content of the directory and every command history",
 "Tests never run init.",
 ["src/cmd/init.rs","src/project/mod.rs"],[("discover_project / initialize_project","src/project/mod.rs")],
 ["files under the project directory"])
p("C16","Each command acts only on the selected profile",
 "Every command uses the database, history directory, definitions directory and metadata schema of the profile it was given (default `database`), with environment variables in the URL and the paths expanded and paths relative to the project directory, from whichever sub-directory it is started. It never reads from or writes to another profile's files, database or ledger; an unknown profile is refused without effect.",
 ["configurations"],"every set of profiles and every command",
 "Tests cover only the expansion of one variable in a string.",
 ["src/project/mod.rs","src/cmd","src/util/expand.rs"],[("resolve_*","src/project/mod.rs"),("expand_envvar","src/util/expand.rs")],
 ["files and database touched by each command"])
p("C17","Exit status tells the truth",
 "A command that could not do its work (error reported, statement rejected, connection refused, commit not confirmed) ends with a non-zero exit status and a message; a command that did its work, or found nothing to do, ends with status zero.",
 ["fault_sequences","inputs"],"every command with every failure",
 "Tests never start the program.",
 ["src/main.rs","src/cmd"],[("main","src/main.rs")],["exit status and stderr"])
p("C18","Identifiers are taken literally",
 "Names of schemas, tables, columns, constraints, indexes, views, sequences, functions and the metadata schema may contain upper case, spaces, quotes, reserved words or non-ASCII letters: the SQL always denotes exactly that name, so consistently renaming objects renames the result and changes nothing else.",
 ["inputs"],"every admissible name in every position of every statement",
 "Tests use lower-case names only and do not execute SQL.",
 ["src/util/sqlfmt.rs",CH,"src/history/dbh.rs"],[("sql_qn/sql_qa/sql_ql","src/util/sqlfmt.rs")],["statements received by the server"])
p("C19","status reports the truth and changes nothing",
 "`status` names the version the database is at (or says why it cannot), lists as staged exactly the recorded stage, lists as not staged exactly what `stage` would add, and says that there are no changes only when both are empty. It modifies no file and nothing in the database.",
 ["histories","fault_sequences"],"every reachable project and database state, including an unreachable or uninitialised database",
 "Tests never run status.",
 ["src/cmd/status.rs","src/history/dbh.rs"],[("status","src/cmd/status.rs")],["output of podo status; files and database afterwards"])
p("C20","Migrations keep the data of what stays",
 "A migration never costs the rows of a table or the values of a column that exist, under the same name, both before and after it: such tables and columns are altered in place, never dropped, emptied or re-created, whatever else changes at the same time; and a sequence whose description does not change keeps its value. This holds for every recorded up script and every recorded down script. Staging never drops or re-creates an object whose definition did not change.",
 ["inputs","histories"],"every pair of well-formed catalogs, both directions",
 "Catalogs before and after are the same whether a table was altered or replaced; only what each statement does on the way tells the difference, and tests look at single changes.",
 [SD,CH],[("diff_table_update, diff_column_update",SD),("revert of alterations",CH+"/mod.rs")],["up and down statements in history/*.yaml"])
p("C21","What a command reports is what it did",
 "When `stage`, `make`, `up`, `down` or `init` ends with status zero, its standard output tells its work and nothing else: `stage` lists exactly the statements it recorded, in order, or says that there were none; `make` names the version it made, or says that the stage was empty; `up` and `down` name the version the database was at, the version aimed at, and, for each version applied or reverted, in order, that version and exactly the statements executed for it, or say that there was nothing to apply; `init` in a project names the directory of that project.",
 ["histories","inputs"],"every reachable project and database state, every target, every set of staged changes, with and without faults",
 "No test reads what a command prints, let alone compares it with the files and the database afterwards.",
 ["src/cmd"],[("stage","src/cmd/stage.rs"),("make","src/cmd/make.rs"),("up","src/cmd/up.rs"),("down","src/cmd/down.rs"),("init","src/cmd/init.rs")],
 ["standard output of the command; files, statements and ledger rows afterwards"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
with open(out,'w') as f:
    for d in P: f.write(json.dumps(d,ensure_ascii=False)+"\n")
