"""Writes MANIFEST.json from the table of claimed checks below."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
RT = 'interprocedural path-sensitive dataflow (abstract interpretation of the syntax trees) composed over extraction and build'
DF = 'path-sensitive dataflow (abstract interpretation of the syntax trees): each value traced from its source to its use'
CLAIM = {
    'C01': (RT, 'every metadata class; all paths with at most one (quick) or two (thorough) departures from the base case'),
    'C02': (RT, 'every metadata class; tree compared location by location on the same paths'),
    'C03': (RT, 'every metadata class; list returned by build against entries written on the same path'),
    'C04': (RT, 'every metadata class; content terms of the entries, code pages included'),
    'C05': (RT, 'every metadata class; writes per path plus name unification under recorded conditions'),
    'C06': ('path-sensitive dataflow over the syntax trees with symbolic stream positions; layouts compared block by block',
            'two entries, chains of 1 to 4 table blocks, four kinds of sources, both container formats'),
    'C10': (DF, 'every path of extract and build and of the stages they run, single departures; loops unrolled twice'),
    'C11': ('path-sensitive effect analysis: every creation, change and deletion traced to the parameter its path is built from',
            'every stage, worker, root object and metadata class of both directions; failing paths included'),
    'C12': (DF + '; recorded conditions evaluated for names that would leave the folder',
            'every creation on the extraction paths of every metadata class, child object and container entry'),
    'C13': ('abstract interpretation of the syntax trees: directories as classes of entries, selected variants as marked values',
            '603 combinations of directory entries; seven places of a file; every decision path'),
    'C16': ('abstract interpretation of the syntax trees over shapes of modules and forms, against the stack discipline of regions',
            'every nesting of up to four nodes (thorough: five), line kinds varied up to three; 1400 shapes of forms'),
    'C20': ('abstract interpretation of the syntax trees in a closed world of files with symbolic contents',
            'every kind of file against every shape of index entry, both directions and modes'),
    'C14': ('differential abstract interpretation of the syntax trees in a closed world: listings, sets and worker completion in four orders',
            'every step that lists a directory or collects workers; four orders each'),
    'C21': ('differential abstract interpretation of the syntax trees: extraction and build of families of objects, trees symbolic but for lists of children',
            'every metadata class as a child and as a parent, three root classes, both tables of contents, children added and removed'),
    'C23': ('differential abstract interpretation of the syntax trees: extraction and build of families of objects with and without a prefix',
            'every metadata class at the top level and nested, own, adopted and without owner mark, four forms of the option'),
    'C15': ('whole-program origin analysis of shared objects over the syntax trees (summaries per function, fixpoint), and dataflow of the '
            'caller\'s arguments through every operation', 'every function; every organizer step; one family per metadata class'),
    'C08': ('abstract interpretation of the metadata classes with a symbolic header; the tables of facts found are compared with a reviewed table',
            'every metadata and root class; 1582 facts: type uuids, directory names, slots of code, help and children'),
    'C22': ('abstract interpretation of the syntax trees of the reader and the writer over shapes of texts, lines and trees symbolic where the code '
            'does not look', 'every transition of the reader; shapes of up to three values; two levels'),
    'C17': ('abstract interpretation of the syntax trees over shapes of forms that are not supported, failures injected at every step of the element code',
            'two form families; one obstacle or one failure per form at every place'),
    'C24': ('abstract interpretation of the syntax trees: element code of both form families composed over shapes of forms symbolic where the code does not look',
            'every element kind and list of a form; nested groups, tables and panels; static and dynamic contents'),
    'C18': (DF, 'every command line path, every product field, every stage call, every root handler'),
    'C19': ('acquire/release typestate over the paths of the syntax trees, failures injected at every call', 'one failure per path'),
    'C31': ('abstract interpretation of the syntax tree of the selecting function over classes of directory entries',
            'up to four variants of one name and every class of foreign entry'),
}
NA = {
    'C07': 'not claimed: no check of this session decides it for all functions that may return nothing. It is not out of reach of '
           'static analysis in principle; it needs a path-sensitive account of which runtime contents (damaged blocks, absent '
           'entries) make each result absent, and that was not built. Absent results met on the paths the other checks follow are seen there only',
    'C09': 'not claimed: a check that injects failures at every call of a library or package function in the abstract interpreter '
           'was tried but not finished (it missed one of the mutants written for it and was not run with the other checks), '
           'so nothing of it is registered',
    'C30': 'needs equality of the regenerated text with the original text for every value the parser accepts: a property of '
           'concrete character sequences that no static argument in reach bounds (the parser drops layout the platform may vary)',
    'C32': 'line-ending preservation depends on the contents of files and on universal-newline translation of runtime data; '
           'deciding it statically for all texts is out of reach of this family',
    'C33': 'whether a stream is inflated completely depends on runtime chunk sizes and on zlib internals; no static rule decides it',
}


def main():
    props = [json.loads(x) for x in open(os.path.join(HERE, 'properties.jsonl'), encoding='utf-8')]
    checks, na = [], []
    for p in props:
        i = p['id']
        if i in CLAIM:
            t, n = CLAIM[i]
            checks.append(dict(property=i, quick_cmd='python3 check.py %s quick' % i,
                               thorough_cmd='python3 check.py %s thorough' % i, technique=t, level='other', level_note=n))
        else:
            na.append(dict(property=i, reason=NA[i]))
    m = dict(version=1, setup_cmd='true', checks=checks, not_applicable=na)
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w', encoding='utf-8') as f:
        json.dump(m, f, ensure_ascii=False, indent=1)
        f.write('\n')


main()
