#!/usr/bin/env python3
"""Single source of the property texts and check registrations: writes properties.jsonl and MANIFEST.json."""
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STAR, CIF, YAPPS = 'src/StarFile.nw', 'src/CifFile_module.nw', 'src/YappsStarParser.nw'
P, NA = [], []


def prop(id, title, statement, over, text, tests, files, mech, technique=None, note=None, state=(), observe=(), na=None):
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text},
              'why_tests_cant': tests,
              'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech],
                          'state': [{'name': n, 'meaning': m, 'where': w} for n, m, w in state],
                          'observe_at': list(observe)},
              '_technique': technique, '_note': note, '_na': na})


AI = 'path-sensitive abstract interpretation of the tangled sources (typestate ledger)'

prop('C01', 'Names are found whatever their letter case',
     'Every operation of a data block, a loop or a block collection that takes a data name or a block name treats names '
     'that differ only in letter case as the same name: it finds, tests, replaces, reorders or removes the same item or '
     'block whichever case the caller uses.',
     ['inputs', 'histories'], 'all names in any mixture of letter case, all operations, after any sequence of operations',
     'The tests use a few spellings with a few operations; a single forgotten lower() shows only when that operation is '
     'called with another spelling than the one stored.',
     [STAR], [('lower-casing at each operation', 'StarBlock, LoopBlock and BlockCollection methods in src/StarFile.nw')],
     AI, 'Every access to a name-keyed table found on any path of 70+ public operations is classified; text of the caller '
     'that reaches a table without being put in lower case is reported. Assumes the tables themselves are keyed by '
     'lower-case names (C03, C04 use the same analysis). Merging and packet iteration are not covered.',
     state=[('tables', 'values, printed names, print order, loops; blocks, parent table, visible names, order', STAR)])

prop('C02', 'A refused change leaves the object unchanged',
     'When adding or assigning a data item, reordering or removing an item, creating a loop, adding an existing item to a '
     'loop, or adding, replacing, renaming, re-parenting or deleting a block is refused with an exception, the block or '
     'file has exactly the items, values, loops, order and blocks it had before the call.',
     ['inputs', 'histories'], 'all arguments that make one of these operations raise, on any consistent object',
     'Tests check that an exception is raised for a few bad arguments; they do not compare the whole object before and '
     'after for every check that can fail.',
     [STAR, CIF], [('checks before the first store', 'AddItem, CreateLoop, AddLoopName, NewBlock, rename, set_parent in '
                    'src/StarFile.nw')],
     AI, 'Every path of the listed operations (calls inlined) that ends in an exception is checked to have performed no '
     'store to the tracked tables. Implicit exceptions of library calls are considered where the code catches them. '
     'Column assignment through a loop object and packet addition are not claimed.')

prop('C03', 'A data block always agrees with itself about its items',
     'After any operation on a data block, every item that has a value has one printed spelling and exactly one place, '
     'either in the print order or in one loop; every name listed in the print order, in a loop or among the printed '
     'spellings has a value; and no loop is left without names.',
     ['inputs', 'histories'], 'all operations (add, assign, remove, clear, reorder, create or extend loops, add or remove '
     'packets, merge), all names, any starting block that is consistent',
     'The tests look at the tables of a few blocks after a few operations; the invariant has to survive every path of '
     'every operation, such as removing the last column of a loop or looping an already looped name.',
     [STAR, CIF], [('table updates of each operation', 'AddItem, RemoveItem, CreateLoop, AddLoopName, ChangeItemOrder, '
                    'RemoveKeyedPacket, merge in src/StarFile.nw')],
     AI, 'Inductive: from an arbitrary consistent block, every path of each operation is interpreted abstractly for an '
     'arbitrary name; inconsistent outcomes are reported. Assumes CreateLoop is called with its length check on.',
     state=[('block / true_case / item_order / loops', 'the four tables that have to agree', STAR)])

prop('C04', 'A block collection always agrees with itself about its blocks',
     'After any operation on a file or dictionary object that adds, replaces, renames, re-parents, merges or deletes '
     'blocks, each block is known under one name, is listed exactly once in the output order, has an entry saying what '
     'encloses it, and is visible at most once (always, when nothing encloses it); nothing is listed that does not exist.',
     ['inputs', 'histories'], 'all operations on collections, all block names, any consistent starting collection',
     'Tests exercise small files; lost or doubled entries appear only with save frames, replaced parents, or merges of '
     'overlapping collections.',
     [STAR], [('table updates of each operation', 'NewBlock, _rekey, rename, merge_fast, __delitem__, set_parent, '
               '__setattr__ in src/StarFile.nw')],
     AI, 'Inductive over the operations, for an arbitrary block name, as C03. Whether children are visible under each '
     'scoping mode, and cycles of parents, are not decided.',
     state=[('dictionary / lower_keys / child_table / visible_keys / block_input_order', 'the tables that have to agree', STAR)])

exec(open(os.path.join(HERE, 'tools', 'props_more.py')).read()) if os.path.exists(os.path.join(HERE, 'tools', 'props_more.py')) else None


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps({k: v for k, v in p.items() if not k.startswith('_')}) + '\n')
    m = {'version': 1, 'setup_cmd': 'python3 -c "import ast, sys; sys.exit(0)"', 'checks': [], 'not_applicable': []}
    for p in P:
        if p['_na']:
            m['not_applicable'].append({'property': p['id'], 'reason': p['_na']})
        else:
            m['checks'].append({'property': p['id'], 'quick_cmd': 'python3 check.py ' + p['id'],
                                'thorough_cmd': 'python3 check.py %s --thorough' % p['id'],
                                'technique': p['_technique'], 'level': 'other', 'level_note': p['_note']})
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')
    for p in P:
        assert len(p['title']) <= 80, p['id']
        assert p['_na'] or p['_technique'], p['id']


main()
