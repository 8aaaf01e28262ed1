#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
T = {
'P01': ('reference-lexer monitor', 'every token of every generated text is compared with an independent reference lexer', 'the reference lexer (lexref.go) states the lexical rules; texts are generated, token soups and mutations under all dialects'),
'P02': ('position monitor over token streams', 'each token position is recomputed from the text alone', 'line and column rules are those of the statement'),
'P03': ('differential monitor between entry points', 'the same text through every constructor, option order and entry point; results must agree', 'agreement only; P01 and P05-P08 say what is right'),
'P04': ('fault injection at every read offset, chunking readers', 'every byte offset of each text fails once; every chunking must give the same result', 'texts are bounded in length; offsets are exhaustive per text'),
'P05': ('reference-model monitor: generated trees against parsed trees', 'queries are emitted from random trees, the parser must give the tree back', 'the emitter (emit.go) is the model of the spelling'),
'P06': ('reference-model monitor: generated trees against parsed trees', 'statements are emitted from random trees, the parser must give the tree back', 'the emitter (emit.go) is the model of the spelling'),
'P07': ('reference-model monitor: generated trees against parsed trees', 'statements are emitted from random trees, the parser must give the tree back', 'the emitter (emit.go) is the model of the spelling'),
'P08': ('reference-model monitor: precedence tables, exhaustive short operator sequences', 'operator sequences up to a bound exhaustively, longer ones at random, against an independent precedence climber', 'the rank table of the statement'),
'P09': ('round-trip monitor', 'print, parse, compare, print again for parsed and hand-built trees', 'tree equality up to positions by reflection'),
'P10': ('conservation monitor over token streams', 'tokens in = tokens out, for valid and mutated texts that are accepted', 'the normal spellings of the statement are the allowed differences'),
'P11': ('crash, hang and output monitor in process and in child processes', 'generated, mutated, deep and flat inputs; CPU time at two sizes', 'growth is judged by CPU time ratio with a wide margin'),
'P12': ('metamorphic monitor', 'each text against its relaid, commented and recased forms', 'agreement only'),
'P13': ('metamorphic monitor with delimited identifiers', 'delimited words in every name and keyword place', 'keyword lists taken from the dialect package'),
'P14': ('reference-value monitor', 'literals with values known from big-number arithmetic', 'math/big and strconv are trusted'),
'P15': ('position monitor over trees', 'extents of all nodes against the tokens the emitter spelled', 'known findings listed'),
'P16': ('composition monitor', 'a script against its parts parsed alone', 'agreement only'),
'P17': ('comment event monitor', 'comments listed against those placed by the layouter', 'comments are placed between all tokens at random'),
'P18': ('comment map monitor', 'each group assigned once, placement rules judged against token positions', 'known findings listed'),
'P19': ('visitor trace monitor', 'visit events checked against a reflection walk of the tree', 'child order from token positions of the emitter'),
'P20': ('callback trace monitor', 'pre and post events checked against a reflection walk', 'all fields of nodes found by reflection'),
'P21': ('edit model monitor', 'edits are mirrored on a model of the tree and compared', 'the model edits copies by path'),
'P22': ('fault injection at every written byte', 'writers fail after each possible byte count', 'long texts are sampled'),
'P23': ('Go race detector and result monitor under concurrent stress', 'concurrent rounds in a race build; results compared with sequential ones', 'only interleavings that occurred are judged'),
'P24': ('repeatability monitor over histories and processes', 'digests of results within and between processes, deep copies before and after', 'texts and histories are generated'),
'P25': ('command monitor', 'exit status and output of the built command against the library', 'the dump is compared with the printer library it uses'),
'P26': ('generator monitor', 'generated files are formatted, type-checked and probed for closedness', 'go/types is trusted'),
'P27': ('reference-lexer and reference-tree monitor under random dialects', 'tokens of texts and trees of generated statements under dialects drawn at random', 'the reference lexer and the emitter, parameterised by the dialect'),
'P28': ('reference-value monitor and differential monitor of comparisons', 'constructed nodes against parsed ones, reported differences against a comparison by reflection', 'trees of up to 60 nodes are compared (the comparison library takes exponential time)'),
}
FE = ('P04', 'P22')
checks = []
for k in sorted(T):
    t, n, a = T[k]
    checks.append(dict(property=k, quick_cmd='./check.sh %s' % k, thorough_cmd='VERIF_TIER=thorough ./check.sh %s' % k,
        evidence_file='evidence/%s.json' % k, technique='runtime monitoring: ' + t,
        level='fault_enumeration' if k in FE else 'exploration',
        level_note='Held on the executions run, no more: %s. Trusted: %s.' % (n, a)))
m = dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=[],
    notes='No hooks in /repo: every monitor observes the public interface. Each check rebuilds the harness against /repo.')
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'MANIFEST.json')
with open(out, 'w') as f:
    json.dump(m, f, indent=1); f.write('\n')
