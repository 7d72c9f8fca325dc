#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the texts below (development tool; the outputs are committed)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []
CLI = 'huff/src/cli.rs'
COMP = 'huff/src/comp.rs'
LC = 'huff_coding/src/comp.rs'
TI = 'huff_coding/src/tree/tree_inner.rs'
BH = 'huff_coding/src/tree/branch_heap.rs'
BR = 'huff_coding/src/tree/branch.rs'
LE = 'huff_coding/src/tree/leaf.rs'
LT = 'huff_coding/src/tree/letter.rs'
WE = 'huff_coding/src/weights.rs'
PA = 'process_args'
RCW = 'read_compress_write'
RDW = 'read_decompress_write'

TECH_CLI = 'path-sensitive abstract interpretation of the compiler\'s MIR with typestate monitors on files and options'
NOTE_CLI = ('Whole-program static argument over every path from main: symbolic paths and option values, affine integer facts, '
            'no loop or input bound. Trusts the models of std, clap and bitvec in an/models.py and the compiler\'s MIR; '
            'code the analysis does not understand is reported as undecided in the evidence, never as a violation.')


def p(id, title, statement, over, text, why, files, mech, tech=TECH_CLI, note=NOTE_CLI, observe=None):
    assert len(title) <= 80, title
    d = {'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
         'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}}
    if observe:
        d['anchors']['observe_at'] = observe
    P.append((d, tech, note))


def na(id, title, statement, over, text, why, files, mech, reason):
    p(id, title, statement, over, text, why, files, mech, None, None)
    NA.append({'property': id, 'reason': reason})


NOCLI = 'The tests of the command-line program only look at successful runs on a few files'

p('C01', 'Success means every byte of the output was written',
  'When the program reports success for a compression or decompression, no operation on a file has failed unnoticed: every read, write, seek and flush succeeded, and all buffered output has been written to the destination. A failure of any of these makes the program report an error.',
  ['fault_sequences', 'inputs'], 'every file operation failing at any point, for every source, option and block size',
  NOCLI + '; no test makes a write, flush or seek fail.',
  [COMP, CLI], [('? on every file operation', COMP), ('writer.flush()? before Ok', COMP)])
p('C02', 'Success means the whole source was processed',
  'When the program reports success, it has read the source from its beginning to its end: no block was skipped, read short or left over, whatever the length of the source and the block size.',
  ['inputs', 'configurations', 'fault_sequences'], 'every source length, block size and pattern of short reads',
  NOCLI + ' with one block size; the tail of a source whose length is not a multiple of the block size is sampled at most.',
  [COMP], [('loop over the bytes left, read_exact of the block', COMP), ('seek to the start between the two passes', COMP)])
p('C03', 'The source is deleted only on request and only after full success',
  'The program deletes a file only when asked to replace the source, only the source itself, and only after the whole output was written to the destination without any error. Whenever the program reports an error or the user declines to overwrite, the source is still there.',
  ['inputs', 'fault_sequences', 'histories'], 'every combination of options, answers, file states and failing operations',
  'No test runs the program with the replace option and a failing step.',
  [CLI], [('remove_file after the compression returned Ok', f'{CLI} {PA}')])
p('C04', 'An existing destination is overwritten only with consent',
  'The program truncates or overwrites a file that already exists only if the user gave the noask option or answered the question with a text beginning with y. Any other answer, or failing to read one, leaves the file untouched.',
  ['inputs', 'histories', 'configurations'], 'every option combination, destination state and answer',
  'The question is not tested at all.',
  [CLI], [('ask_replace! before the file is created', f'{CLI} {PA}')])
p('C05', 'The source is never written to',
  'No run of the program modifies its source file: nothing is ever opened for writing under the source\'s path, nor under a destination path that leads to the same file.',
  ['inputs', 'configurations'], 'every pair of source and destination, including links and different spellings of one path',
  'No test passes the same file as source and destination.',
  [CLI, COMP, 'huff/src/utils.rs'], [('check_not_same_file! before the file is created', f'{CLI} {PA}'), ('File::open for the source', COMP)])
p('C06', 'Rejected input leaves the destination untouched',
  'When the program refuses its input (bad block size, source missing, a directory or empty, wrong extension, header missing or invalid), it does so before the destination is created or truncated. Only a failing file operation can end a run in an error after the destination was created.',
  ['inputs', 'configurations'], 'every input the program can refuse',
  'No test checks the destination after a refused input.',
  [COMP, CLI], [('File::create after the input was validated', COMP)])
p('C07', 'Only the named files are touched',
  'The program reads no file but its source, creates no file but its destination (the name given, or derived from the source\'s name as documented) and removes none but its source. The library itself touches no file, stream, process, environment variable or network.',
  ['inputs', 'configurations', 'programs'], 'every run of the program and every use of the library',
  'A test sees only the files it looks for.',
  [COMP, CLI, LC, TI, WE], [('File::open(src), File::create(dst), remove_file(src)', f'{COMP}, {CLI}')])
p('C08', 'Every documented option has its documented effect',
  'The program accepts exactly the documented arguments and options under their documented spellings and defaults, and consults each of them: the decompress option alone chooses between compression and decompression, time alone makes it print the time taken, replace, noask and block-size act as documented. No run consults an option that does not exist.',
  ['configurations', 'inputs'], 'every combination of options',
  'The tests call the program with one or two option combinations.',
  [CLI, 'huff/res/cli.yml', 'huff/src/main.rs'], [('process_args', CLI), ('argument description', 'huff/src/res/cli.yml')],
  'the same abstract interpretation, plus a query of the compiled-in argument description against the documented options')
p('C09', 'The block size option means what the help says and bounds each read',
  'A block size is a positive number with an optional unit k, m, g, ki, mi or gi in either case, meaning 1000, 1000^2, 1000^3, 1024, 1024^2 and 1024^3 bytes; anything else, zero, or a size that does not fit the machine is refused as invalid input. No single read of the source\'s data by the program loads more bytes than the block size.',
  ['inputs', 'configurations'], 'every block-size text and source length',
  'No test passes a block size.',
  [CLI, COMP], [('parse_block_size!', f'{CLI} {PA}'), ('buffer of at most block_size bytes', COMP)])
p('C10', 'The destination name follows the documented rule',
  'When compressing, the destination is the given destination, or the source\'s file name in the current directory, with .hff added to its name. When decompressing, the source must have the extension hff, and the destination is the one given or, by default, the source\'s file name in the current directory, where .hff is only ever taken off and never added.',
  ['inputs', 'configurations'], 'every source and destination path',
  'The tests use one file name.',
  [CLI], [('parse_paths!', f'{CLI} {PA}')])
p('C12', 'The program never panics',
  'No arguments, file contents, file sizes, answers or failing operations make the program itself panic: whatever goes wrong is reported as an error. (Standard output being closed is excepted.)',
  ['inputs', 'configurations', 'fault_sequences'], 'every run of the program',
  'Tests sample a handful of well-formed inputs.',
  [COMP, CLI, 'huff/src/utils.rs'], [('checked arithmetic, bounds known from the lengths read', COMP)])

exec(open(os.path.join(HERE, 'tools', 'gen_lib.py')).read()) if os.path.exists(os.path.join(HERE, 'tools', 'gen_lib.py')) else None

na('N01', 'Decompressing a compressed file gives back the original',
   'For every non-empty source, compressing it and decompressing the result yields exactly the original bytes, whatever the block sizes of the two runs.',
   ['inputs', 'configurations'], 'every source and pair of block sizes',
   'Tests try a few files.', [COMP, LC, TI], [('compress / decompress', COMP)],
   'Equality of two unbounded bit strings produced by two loops over data-dependent codes: needs an inductive functional proof relating the encoder\'s code table to the decoder\'s walk, which no dataflow or type-level argument in reach gives. Its local ingredients are decided statically where claimed (codes, serialisation, header, bit order).')
na('N02', 'The codes are prefix-free and of minimal total length',
   'For every set of weights, the codes assigned are prefix-free and no other prefix code has a smaller weighted length.',
   ['inputs'], 'every set of weights', 'Tests compare a few trees.', [BH, TI], [('HuffTree::from_weights', TI)],
   'Optimality quantifies over all other prefix codes of runtime weights; only a functional proof can settle it. The local steps (two least branches merged, weight is the sum, left 0 and right 1) are claimed separately.')
na('N03', 'Damaged compressed data is always detected',
   'Decompressing a file whose data part was cut short or altered reports an error.',
   ['inputs'], 'every alteration', 'No test alters a file.', [COMP], [('decompress_to_writer', COMP)],
   'The format has no checksum or length, so the property is false by design for most alterations and undecidable from the source for the rest.')


def main():
    P.sort(key=lambda x: x[0]['id'])
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for d, *_ in P:
            f.write(json.dumps(d, ensure_ascii=False) + '\n')
    m = {'version': 1,
         'setup_cmd': 'bash setup.sh',
         'checks': [{'property': d['id'], 'quick_cmd': f'python3 run.py {d["id"]} --tier quick',
                     'thorough_cmd': f'python3 run.py {d["id"]} --tier thorough',
                     'evidence_file': f'evidence/{d["id"]}.json', 'technique': t, 'level': 'other', 'level_note': n}
                    for d, t, n in P if t],
         'not_applicable': NA,
         'notes': 'No hooks: the checks read the compiler\'s MIR of the unmodified crates. Repairs of genuine defects are the fix: commits of /repo, listed in known-findings.txt.'}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1, ensure_ascii=False)
        f.write('\n')


main()
