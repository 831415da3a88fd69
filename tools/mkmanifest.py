#!/usr/bin/env python3
"""writes MANIFEST.json from the table below"""
import json, os
TLA = 'TLA+ specification checked with TLC; traces of the real binary validated against it'
DONE = {
    'C01': ('model_checking', 'Catalog.tla decides, for every staged file of random and systematic definition histories of the real binary, that folding the recorded changes gives exactly the defined catalog and that a second stage is empty. Sampled histories; the DDL/expression parser is trusted.'),
    'C02': ('model_checking', 'Catalog.tla executes recorded up then down statements of the real binary and compares catalogs. Trusts the model of PostgreSQL DDL; sampled histories.'),
    'C03': ('model_checking', 'Catalog.tla executes recorded up statements and compares with the fold of the recorded changes. Trusts the model of PostgreSQL DDL; sampled histories.'),
    'C04': ('model_checking', 'Catalog.tla decides acceptability of every recorded statement in order (existence, dependencies, grammar). Trusts the model of PostgreSQL DDL; sampled histories, fresh hash seeds per run.'),
    'C05': ('model_checking', 'Podo.tla judges every migration of walks of MCLife.tla, of random lives and of sweeps in which a migration fails at every exchange with the server in every way and every statement is rejected. The server is a stand-in with PostgreSQL transaction semantics; sampled histories.'),
    'C06': ('model_checking', 'MCLife.tla is explored exhaustively and edges of its graph are walked in the real binary; Podo.tla judges every up by the statements and ledger rows committed at the server. Stand-in server; sampled lives beyond the model bounds.'),
    'C07': ('model_checking', 'As C06, for down, with files that change or vanish between up and down.'),
    'C08': ('model_checking', 'As C06, for the files: every command is judged by the version files before and after, with colliding labels and times and interrupted makes.'),
    'C09': ('model_checking', 'As C06, for stage and reset; what is staged after a reset is folded by Catalog.tla and compared with the definitions.'),
    'C10': ('model_checking', 'Fifteen ways of breaking a history under every command, walks of MCLife.tla and random lives; Podo.tla decides what is broken and which commands need it.'),
    'C11': ('fault_enumeration', 'MCCrash.tla explores the writing protocol with crashes anywhere; the real binary is killed at every call that changes a file (LD_PRELOAD shim) and the result, and that of running the command again, is judged by Podo.tla.'),
    'C12': ('model_checking', 'Definitions.tla says what is well-formed and what it means; every file set of MCDefs.tla (every keyword, kind of value and name in every place) and randomly spelt, split and damaged definitions are staged by the real binary and judged by it.'),
    'C13': ('model_checking', 'Random live databases behind a stand-in server with an executed pg_catalog; Catalog.tla compares what staging the clone records with the live catalog. Trusts the model of the catalog tables.'),
    'C14': ('model_checking', 'MCConc.tla explores all interleavings of two migrations; its schedules, and random ones, are imposed on two real processes at a stand-in server with row, unique-key and table locks; Podo.tla judges whether the outcome is serial.'),
    'C15': ('model_checking', 'Podo.tla judges init in random directories (fresh, existing, nested, damaged, partly there, wrong kinds of things in the way).'),
    'C16': ('model_checking', 'Lives of projects with several profiles spelt in many ways, from any directory; Podo.tla judges whose files, databases and ledgers may change, Catalog.tla that the own definitions are staged.'),
    'C17': ('model_checking', 'As C06, for exit statuses; additionally every call that changes a file fails in turn.'),
    'C18': ('model_checking', 'Twin projects, plain and renamed with every short name of MCNames.tla and reserved words: TraceNames.tla decides that the renamed one records and does the renaming of the plain one; lives and clones under hostile names and metadata schemas are judged by Podo.tla and Catalog.tla.'),
    'C19': ('model_checking', 'As C06, for status, whose output is compared with the stage file and with what stage would add (tried on a copy).'),
    'C20': ('model_checking', 'Catalog.tla executes the statements each stage adds, up and down, and follows what becomes of the data: which tables, columns and sequences are removed or emptied on the way. Trusts the model of PostgreSQL DDL; sampled histories.'),
    'C21': ('model_checking', 'As C06, for what stage, make, up and down print, compared with what they recorded, made and executed. Names and statements in the output are recognised by those that occur in the files and the ledger.'),
}
PENDING = 'check not built yet'
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
checks, na = [], []
for p in props:
    i = p['id']
    if i in DONE:
        level, note = DONE[i]
        checks.append({'property': i, 'quick_cmd': 'python3 check.py %s quick' % i, 'thorough_cmd': 'python3 check.py %s thorough' % i,
                       'evidence_file': 'evidence/%s.json' % i, 'technique': TLA, 'level': level, 'level_note': note})
    else:
        na.append({'property': i, 'reason': PENDING})
m = {'version': 1, 'setup_cmd': 'python3 tools/setup.py', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: podo is driven as a black box. Known findings: known_findings.txt.'}
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
