"""Property id -> how it is decided."""
from . import clone, content, crashes, defs, initcheck, lifecheck, pairs, profiles, twins

CHECKS = {}


def check(ids, level, assumes):
    def deco(fn):
        for i in ids.split():
            CHECKS[i] = {'run': fn, 'level': level, 'assumes': assumes}
        return fn
    return deco


check('C01 C02 C03 C04 C20', 'model_checking',
      ['Catalog.tla states what PostgreSQL does with the DDL podo emits; no PostgreSQL is available here to compare with',
       'the SQL and expression parser in pv/ (anything it does not know makes the check end without an answer)'])(content.check_content)

check('C13', 'model_checking',
      ['pv/pgcat.py shows the catalogs PostgreSQL 16 would show, with expressions as the generator wrote them; no PostgreSQL is available here to compare with',
       'the SELECT interpreter in pv/engine.py (anything it does not know makes the check end without an answer)'])(clone.check_clone)

check('C14', 'model_checking',
      ['pv/engine.py gives concurrent transactions what PostgreSQL gives them at READ COMMITTED: table locks, waiting for keys written by open transactions; no PostgreSQL is available here to compare with'])(pairs.check_pairs)

check('C11', 'model_checking',
      ['a kill is simulated before, after and in the middle of every libc call by which podo changes a file (LD_PRELOAD); what reached the kernel survives, as it does when a process is killed'])(crashes.check_crashes)

check('C05 C06 C07 C08 C09 C10 C17 C19 C21', 'model_checking',
      ['pv/engine.py and pv/pgfake.py stand in for the server: transactions, the ledger table and the protocol behave as PostgreSQL documents; the scripts it is sent are logged, not executed, by this part',
       'histories and definitions are read by a YAML parser of our own (PyYAML with the YAML 1.2 core schema)'])(lifecheck.check_life)

check('C15', 'model_checking', ['as for C05; a directory is what its files and sub-directories are (permissions, links and special files are not varied)'])(initcheck.check_init)

check('C16', 'model_checking', ['as for C05; variables and paths are varied over the spellings in pv/profiles.py'])(profiles.check_profiles)

check('C12', 'model_checking',
      ['columns, expressions, types and queries are put into canonical form by the parser in pv/ before Definitions.tla compares them', 'files are written by pv/defs.py; how YAML texts map to entries is not decided by the specification'])(defs.check_defs)

check('C18', 'model_checking', ['as for C01, C05 and C13; names are at most 63 bytes long, hold no control characters and neither begin nor end with a space; a dot is not used in names of schemas and tables, a parenthesis not in those of functions'])(twins.check_names)
