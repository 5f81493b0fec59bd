#!/usr/bin/env python3
"""Writes MANIFEST.json from the properties and the table below."""
import json, os
os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
T = {   # models, trace modules, what is observed
 'I01': ('MCPnm', 'TraceImg', 'image_from_file on files made of every kind of layout'),
 'I02': ('MCPnm', 'TraceImg', 'image_from_file on prefixes, mutations and impossible headers, under ASAN/UBSAN'),
 'I03': ('MCImg', 'TraceImg', 'public operations of Image'),
 'S01': ('MCSegment', 'TraceImg', 'sequence of boxes of make_box_character'),
 'S02': ('MCSegment', 'TraceImg', 'sequence of boxes of make_box_character'),
 'F01': ('MCFeatures', 'TraceFeat', 'compute() of the strategies and of the database columns'),
 'F02': ('MCFeatures', 'TraceFeat', 'compute() of the strategies and of the database columns'),
 'F03': ('MCZone, MCZoneSweep', 'TraceFeat', 'compute() of the zone strategies'),
 'F04': ('MCContext', 'TraceFeat', 'sessions of measures sharing contexts and buffers'),
 'F05': ('MCDistance', 'TraceFeat', 'relationships of every column'),
 'D01': ('MCGlyphFile', 'TraceOcr', 'glyph streams written and read back'),
 'D02': ('MCFeatureFile', 'TraceFeat', 'feature streams written and read back'),
 'D03': ('MCFeatureFile', 'TraceWorkflow', 'write_datas run on glyph files'),
 'D04': ('MCGlyphFile', 'TraceWorkflow', 'sessions of normalize_glyphs'),
 'D05': ('MCWorkflow', 'TraceWorkflow', 'write_glyphs and show_glyphs run on images and texts'),
 'D06': ('MCDamage', 'TraceOcr, TraceWorkflow', 'the readers of the databases and the programs given files which are cut or damaged, under ASAN/UBSAN'),
 'D07': ('MCFaults', 'TraceWorkflow', 'the programs and the script learning with outputs which fail at a byte, files which are not there, wrong arguments'),
 'T01': ('MCTrie', 'TraceSpell', 'membership answers of dictionaries'),
 'T02': ('MCTrie', 'TraceSpell, TraceWorkflow', 'dictionary files, make_trie_dictionary run on word files'),
 'T03': ('MCPick', 'TraceSpell', 'answers of the disambiguation'),
 'T04': ('MCUtf', 'TraceSpell', 'iterators over texts'),
 'T05': ('MCTrie', 'TraceSpell', 'walks of tries'),
 'T06': ('MCRaw', 'TraceSpell', 'iterators, dictionaries and choices on words of any bytes, under ASAN/UBSAN'),
 'O01': ('MCGlyphFile', 'TraceOcr', 'databases of glyphs loaded from texts'),
 'O02': ('MCLines', 'TraceOcr', 'line information of the words of databases'),
 'O03': ('MCUniverse', 'TraceOcr', 'indexes of databases'),
 'C01': ('MCUniverse', 'TraceOcr', 'candidates given by compute_image, sessions with one context'),
 'C02': ('MCUniverse', 'TraceOcr', 'candidates of the images of the database'),
 'L01': ('MCLines', 'TraceOcr', 'lists of candidates after the filter'),
 'L02': ('MCLines', 'TraceOcr', 'lists of candidates after the filter'),
 'A01': ('MCAssemble', 'TraceOcr', 'text and count of a line'),
 'E01': ('MCWorkflow', 'TraceWorkflow', 'sessions of the programs, from images to the text printed'),
 'E02': ('MCSession', 'TraceWorkflow', 'lines with repeated drawings read by ocr2_extract_text'),
 'E03': ('MCLearn', 'TraceWorkflow', 'the script learning run on directories of fonts, its six files before and after'),
 'U01': ('MCReindex', 'TraceSpell', 'lists put in another order'),
 'R01': ('MCRewrite', 'TraceSpell', 'texts after replacement, tables of replacements read'),
}
props = [json.loads(l)['id'] for l in open('properties.jsonl')]
checks = []
for p in props:
    if p not in T:
        continue
    mc, tr, obs = T[p]
    checks.append({'property': p, 'quick_cmd': 'python3 bin/check.py ' + p,
                   'thorough_cmd': 'VERIF_TIER=thorough python3 bin/check.py ' + p,
                   'technique': 'TLA+ specification: TLC model checking of %s, trace validation of the real code by TLC (%s)' % (mc, tr),
                   'level': 'model_checking',
                   'level_note': 'The specification is explored exhaustively within the constants of %s.cfg; conformance judges every recorded event (%s), on inputs enumerated at small sizes and seeded random or directed ones beyond. Trusts TLC, the compilers and the recording drivers.' % (mc.split(',')[0], obs)})
na = [{'property': p, 'reason': 'no check yet'} for p in props if p not in T]
json.dump({'version': 1, 'setup_cmd': 'python3 bin/setup.py', 'checks': checks, 'not_applicable': na,
           'notes': 'No hooks: the drivers and the programs use public interfaces. Known and repaired defects: known-findings.txt.'},
          open('MANIFEST.json', 'w'), indent=1)
