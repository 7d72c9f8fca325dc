TECH_LIB = 'path-sensitive abstract interpretation of the compiler\'s MIR of every exported library function'
NOTE_LIB = ('Whole-crate static argument from every exported function with arbitrary arguments: symbolic values, affine integer facts, '
            'recursion generalised, no loop or input bound; generic letters are opaque. Assumes well-formed trees and compressed data from callers '
            '(which C15 and C16 show the library builds) and no count beyond usize. Trusts the models of std and bitvec in an/models.py; '
            'code the analysis does not understand is reported as undecided in the evidence, never as a violation.')
NOLIB = 'The tests parse and build a handful of small well-formed trees'

p('C11', 'Parsing never panics, whatever the bytes',
  'CompressData::try_from_bytes, HuffTree::try_from_bin, the try_from_be_bytes of every integer letter and decompress return for every input, well-formed or not: malformed data gives an error, never a panic (index out of range, overflow, unwrap of nothing).',
  ['inputs'], 'every byte string and bit string',
  NOLIB + '; malformed input is unlimited in shape.',
  [LC, TI, LT], [('bytes_try_get! on every slice', f'{LC} try_from_bytes'), ('bits.next(), take', f'{TI} try_from_bin')], TECH_LIB, NOTE_LIB)
p('C13', 'Parsing a tree recurses only to a fixed depth',
  'However deeply nested a tree the input of try_from_bytes or try_from_bin encodes, the recursion that reads it stops at a fixed depth and reports an error, so no input can overflow the stack.',
  ['inputs'], 'every byte string and bit string, of any length',
  'No test parses a deep tree; the depth is chosen by the input.',
  [TI], [('depth > MAX_TREE_DEPTH', f'{TI} read_branches_from_bits')],
  'the same abstract interpretation; every recursive call must descend in an existing tree or move a bounded counter', NOTE_LIB)
p('C14', 'No library call panics except as documented',
  'No exported function of the library panics on any arguments, except where documented: building a tree from empty weights, making compressed data of no bytes or with a padding above 7, compressing no letters. All internal unwraps, indexing and arithmetic are safe for every tree, letter set and set of weights.',
  ['inputs', 'programs'], 'every exported function and every argument',
  NOLIB + '; single-letter trees, foreign trees and extreme values are sampled at most.',
  [LC, TI, BH, BR, WE, LT], [('unwrap, expect, index, arithmetic', 'huff_coding/src')], TECH_LIB, NOTE_LIB)
p('C15', 'Compressed data and weight iterators are always well-formed',
  'Every CompressData a user can obtain holds at least one byte and a padding of at most 7 bits, and every iterator over byte weights stands inside its table of 256; no function of the library lets either be broken later.',
  ['inputs', 'programs', 'histories'], 'every way to build and change such values',
  'The tests look at values from two or three inputs.',
  [LC, WE], [('CompressData::new checks', LC), ('private fields', f'{LC}, {WE}')],
  'class invariants checked at every construction and mutation by the same abstract interpretation; field privacy by query', NOTE_LIB)
p('C16', 'Every tree built is a full binary tree with letters at its leaves only',
  'Every branch of every tree has two children or none, and in every tree the library builds, from weights or from bits, a branch without children holds a letter and a branch with children holds none.',
  ['inputs', 'programs', 'histories'], 'every tree the library builds',
  'The tests look at trees of a few letters.',
  [BR, TI, BH], [('HuffBranch::new with a pair of children or none', BR), ('joint branches get no letter', TI)],
  'class invariants checked at every construction and mutation by the same abstract interpretation; field privacy by query', NOTE_LIB)
p('C17', 'A code is the path to its letter: 0 to the left, 1 to the right',
  'In every tree built from weights or read from bits, the code of a child is the code of its parent followed by 0 for the left and 1 for the right child (the single branch of a one-letter tree has code 0), and the code table gives every letter of the tree exactly the code of its own leaf and leaves no leaf out.',
  ['inputs'], 'every tree, of any shape and depth',
  'The tests compare the codes of a few letters in small trees.',
  [TI], [('set_codes_in_child_branches', TI), ('read_codes_with_hasher set_codes', TI)],
  'inductive check of the recursion over generalised arguments by the same abstract interpretation', NOTE_LIB)
p('C19', 'A tree\'s binary form is unambiguous and read as it is written',
  'as_bin writes a branch with children as the bit 1 followed by its left and then its right child, and a letter as the bit 0 followed by the bits of its big-endian bytes, most significant first; try_from_bin reads exactly this form, makes the first child read the left one, and accepts a bit string only if it is used up entirely.',
  ['inputs'], 'every tree of any shape; letters of one and of two bytes',
  'The tests write and read a few small trees of u8 letters.',
  [TI], [('set_tree_as_bin', f'{TI} as_bin'), ('read_branches_from_bits', f'{TI} try_from_bin')],
  'inductive check of the writing and the reading recursion over generalised arguments by the same abstract interpretation', NOTE_LIB)
p('C18', 'Serialised compressed data are laid out and read as documented',
  'CompressData::to_bytes returns, for any data and tree: one byte holding 16 times the number of bits missing to whole bytes at the end of the tree\'s binary form plus the padding of the data; the length in bytes of the tree form as four bytes, big-endian; the tree form; the data. try_from_bytes reads exactly these parts from these places: the tree from as many bits as the two numbers say, the data from what follows to the end, their padding from the low half of the first byte.',
  ['inputs'], 'every tree form of 9 bits to 512 MiB, every data length and padding; every input accepted',
  'The tests convert a few small messages there and back, so a change of layout made on both sides, or one that needs a long tree, passes them.',
  [COMP], [('to_bytes', f'{COMP} CompressData::to_bytes'), ('try_from_bytes', f'{COMP} CompressData::try_from_bytes')],
  'abstract interpretation with symbolic byte sequences; equality of the symbolic bytes with the documented ones by cases on the tree length modulo 8', NOTE_LIB)
p('C20', 'Decompression walks the tree bit by bit',
  'decompress returns, for any compressed data and tree, exactly the letters met by this walk, in order: start at the root; take the bits of the data from the first byte on, the most significant bit of each byte first, leaving out the padding bits at the end of the last byte; go to the left child on 0 and to the right child on 1; where a branch without children is reached, give out its letter and go back to the root. In a tree that is a single letter each bit gives that letter once.',
  ['inputs'], 'every tree of any shape, every data of one byte or more and any length, every padding; letters of one and of two bytes',
  'The tests decompress what the same library compressed from a few messages: a fault that needs a long message, a letter that ends on a byte boundary, or a certain padding passes them.',
  [COMP], [('decompress', f'{COMP} decompress')],
  'abstract interpretation with a specification of the walk run beside the program as ghost state (branch, byte, bit, letters), compared at every loop head and at the end', NOTE_LIB)

p('C21', 'Leaves and branches compare as their weights do',
  'Two HuffLeaf values, and two HuffBranch values, compare by their weights alone: ==, <, cmp and partial_cmp give exactly the answer that comparing the two weights as numbers gives, for all weights and whatever letters, codes and children they hold.',
  ['inputs'], 'every pair of leaves or branches and every weight',
  'The tests compare no leaves and few branches; a comparison wrong above 32 bits, or on a tie, passes them.',
  [LE, BR], [('Ord, PartialOrd, PartialEq for HuffLeaf', LE), ('Ord, PartialOrd, PartialEq for HuffBranch', BR)],
  'abstract interpretation of every comparison without joining paths; each answer checked against the signs of the difference of the weights its path allows', NOTE_LIB)
p('C22', 'A tree is built by joining the two lightest branches',
  'HuffTree::from_weights builds by Huffman\'s algorithm: every letter of the weights given becomes one childless branch with that letter and its weight; then, while there is more than one branch, two branches of least weight are taken and replaced by one branch without letter, with those two as its children and the sum of their weights as its weight; the last branch is the root.',
  ['inputs'], 'weights of any number of letters (as a HashMap, the map the crate itself counts into), letters of one and of two bytes, every weight',
  'The tests build a few trees of small weights; a step that goes wrong for large weights, zero weights or large alphabets gives a working but different tree, which decodes as before.',
  [TI, BH], [('from_weights', TI), ('HuffBranchHeap', BH), ('Ord for HuffBranchHeapItem', BH)],
  'abstract interpretation with every push to and pop from the heap followed as ghost state; the order of the heap\'s items as in C21', NOTE_LIB)

p('C23', 'Compression writes the codes of the letters one after another',
  'compress_with_tree, and compress with the tree it builds itself, make of any letters that all have a code in the tree: the codes of the letters, from the first letter to the last, one after another without gaps; eight bits to a byte, the first bit the most significant; the last byte filled up with 0 bits, whose number is the padding. Of a letter without a code compress_with_tree makes an error.',
  ['inputs'], 'every sequence of letters of any length, every code table, every position of a code within a byte',
  'The tests compress a few messages and mostly look only at what decompressing gives back: a fault that needs a code of a certain length at a certain position, or a long message, passes them.',
  [COMP], [('compress_with_tree', f'{COMP} compress_with_tree')],
  'abstract interpretation with a specification of encoding run beside the program as ghost state (letter, bit of its code, the bits of the byte being filled by name), states kept apart by the number of bits in the byte; every byte put out is compared with the specification\'s', NOTE_LIB)
