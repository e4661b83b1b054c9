"""Registry of the properties: which contracts decide each, what is bounded, what is assumed."""
from .registry import P
from .text import T

P('C01', T['C01']['title'], ['bits'], ['bits:BV'],
  technique='deductive verification: contracts on the bit-field functions, obligations in bit-vectors',
  note='Every bit-field function is proved against a bit-by-bit postcondition for all words and all ranges.',
  assumptions=['field bounds lie within +-2^40 and words within 2^40 (bit-vector width)'])

P('C03', T['C03']['title'], ['bitqueue', 'bits'], ['bitqueue:MINE'],
  technique='deductive verification: representation invariant and contracts on the queue operations',
  note='Representation invariant and exact pre/postconditions of every queue operation, for every unit size 1..32 and every history.')

DV = 'deductive verification: contracts on the functions, obligations generated from the source of /repo and discharged by z3 and cvc5'
PNOTE = 'Proved for all inputs: '


def D(pid, modules, contracts, what, assumptions=(), bounded=(), level='proof', budget=10, technique=DV):
    P(pid, T[pid]['title'], modules, contracts, level=level, technique=technique, note=what, budget=budget, assumptions=list(assumptions),
      bounded=list(bounded))


D('C02', ['modifier', 'bits'], ['modifier:MOD'], PNOTE + 'each modify_* function replaces the bits of its field and keeps all the others, by bit-vectors.',
  assumptions=['the instruction is seen through its opcode field, encoding and storage flags; the module libs.darm, which is not installed, is a stand-in on the executed side'])
D('C15', ['prune'], ['prune:PRUNE'], PNOTE + 'the two passes keep exactly the candidates that are neither impossible nor dominated, in order, and the count is returned.',
  assumptions=['scores are between 0 and 1'])
D('C21', ['prob'], ['prob:ALL'], PNOTE + 'both loops compute the product and one minus the product of the complements, over the reals.')
D('C23', ['count'], ['count:ALL'], PNOTE + 'frequencies are the sums of the occurrences, each list is the first meetings of its instructions in program order.',
  assumptions=['collections.Counter maps every element of a list to the number of its occurrences', 'instructions are compared by identity (no class of the repository defines __eq__)'])
D('C20', ['exactsum'], ['exactsum:ALL'], PNOTE + 'for every set of variables, domains, totals, partial assignment and field function.',
  assumptions=['variables are distinct and have a domain; the candidates of one domain are distinct objects', 'constraint.Domain.hideValue removes the first occurrence of the value from the list',
               'the field function has no effects', 'instructions are compared by identity (no class of the repository defines __eq__)'])
D('C25', ['rules'], ['rules:CONV'], PNOTE + 'both conversions, the function bounds and the flattening, for every list and table.',
  assumptions=['entries of a table are opaque tokens (the code cannot depend on what they hold)', 'instructions of a function are contiguous', 'addresses are distinct'])
D('C26', ['instruction', 'bits'], ['instruction:JUMPS'], PNOTE + 'the target by bit-vectors for every word and address, the lookup for every list.')
D('C24', ['instruction', 'bits'], ['instruction:REVS'], 'Byte reversal of numbers proved for all words; the file readers are bounded: executed on generated files.', level='exploration',
  bounded=['TextDisassembleReader.read, ElfioTextDisassembleReader.read, reverse_endianess of a text: executed on generated inputs'],
  technique='deductive verification of the byte reversal; the file readers under an executed contract (bounded)')

D('C08', ['corrupt', 'bits'], ['corrupt:CABT', 'corrupt:CAB'], PNOTE + 'every filled place holds the word flipped by the digits of its number; digits tell numbers apart and reach every combination (induction lemmas).',
  assumptions=['ranges of one set are disjoint', 'corrupt_all_bits is called with a range inside the word (or an empty one)'])
D('C10', ['corrupt', 'bits'], ['corrupt:RANDOM'], PNOTE + 'whatever random.randint returns inside its bounds, the result is the word with every subset of the selected distinct bits flipped.',
  assumptions=['random.randint(a, b) returns an integer between a and b', 'the selection loop ends (it does with probability one)', 'amount is not larger than the number of bits of the range'])

SEEN = 'instructions are seen through their attributes (opcode field, condition, storages, encoding, validity), which are arbitrary'
D('C11', ['meta'], ['meta:COLL', 'meta:INC'], PNOTE + 'counts of conditions, opcodes and storages of every program, the list of distinct encodings and its order.',
  assumptions=[SEEN, 'the storages of an instruction are between 0 and 19', 'the collector was not used before (its distance tables are empty)'])
D('C12', ['meta'], ['meta:COLL'], PNOTE + 'minimum, maximum and mean of the distances from a write to its first later read, for every program and storage.',
  assumptions=[SEEN, 'the storages of an instruction are between 0 and 19', 'the collector was not used before (its distance tables are empty)', 'the mean is taken over the reals'])
D('C13', ['meta'], ['meta:PRES', 'meta:INC'], PNOTE + 'each table counts the addresses with a valid candidate that has the value, for every program.',
  assumptions=[SEEN])

D('C16', ['builder', 'meta', 'rules'], ['builder:ELIM'], PNOTE + 'what the elimination keeps and removes, for every program and counts; and, by an invariant over the whole construction, every original is still there at every step.',
  assumptions=[SEEN, 'instructions with the same text have the same condition, opcode and storages; the registers of an instruction are among its storages', 'addresses are distinct, and every candidate program contains its original',
               'the storages an instruction writes are between 0 and 19'])

D('C14', ['scores', 'meta'], ['scores:ALL'], PNOTE + 'each of the seven scoring functions, the two rules that combine their scores, and the loop over the whole program, whose invariant is that every partial score is a probability and none of an original is zero.',
  assumptions=[SEEN, 'scores are real numbers (floating-point rounding is left out)', 'the tables of partial scores of different instructions are different tables; score_function is only stored',
               'functions are contiguous and one starts at the lowest address; the metadata count the originals in the order of the addresses of the program', 'the progress bar does not touch the program'],
  bounded=['Recuperator.__init__ and Recuperator.recover, which only store and pass on: executed'])

D('C19', ['quality'], ['quality:ALL'], PNOTE + 'the product and the sum of logarithms over the sizes equal those over the addresses (induction lemmas); the depth is the largest relative position of an original in its reordered candidates.',
  assumptions=[SEEN, 'floating-point numbers are treated as reals', 'math.log(k, 2) is the logarithm', 'encodings are not negative; addresses are distinct; scores that differ by less than a billionth count as equal'])

D('C17', ['builder', 'bitqueue', 'bits', 'meta', 'rules'], ['builder:REC'], PNOTE + 'one invariant over the construction: the order of the addresses, the place and width of every entry, the recorded index and its bits, and the total.',
  assumptions=[SEEN, 'the original is the first candidate with its text', 'every address with several candidates contains its original, and has at most 2^32 of them', 'the metadata collected on construction are counted as in C11'])

PACK = ['word sizes are 1, 2, 4, 8, 16 or 32 bits and a packet has as many units as fit (the sizes the constructor is used with)',
        'order is a list of packet numbers or losses given as integers; losses given as fractions are executed only (bounded)',
        'packets are numbered distinctly and there is at least one', 'the words of the program fit in 32 bits']
D('C04', ['interleave', 'bitqueue', 'bits'], ['interleave:IL', 'interleave:DE'], PNOTE + 'what interleave returns satisfies, as a postcondition, exactly the precondition of deinterleave, '
  'whose postcondition with every packet received is the list of words that went in, in order, with no error; both contain the queue contracts of C03.', assumptions=PACK)
D('C05', ['interleave', 'bitqueue', 'bits'], ['interleave:DE'], PNOTE + 'every received unit at its own place, every lost unit zero and listed once as an error, in order, for every number of packets, words and losses; '
  'the loops are proved to end.', assumptions=PACK + ['the packets are as interleave sends them (the proved postcondition of interleave)'])

D('C07', ['predict'], ['predict:PRED'], PNOTE + 'every unit of every lost packet is reported, whatever is reported is one, and nothing twice, for every order, losses and sizes; the loops are proved to end. '
  'A unit that reaches the last bit of its word is proved to be reported as the existing tests pin it (the known finding last-bit).',
  assumptions=['lost packets are in the order', 'unit sizes are between 1 and 32 bits', 'packet numbers are integers'])

D('C18', ['sio', 'rules'], ['sio:ALL'], PNOTE + 'the writer leaves exactly the fields of the signature, the number of addresses and, per address, the candidates up to its first match; the reader is proved to give those '
  'back from any file of that form, and both are proved to refuse what they have to refuse.',
  assumptions=['a file is read as the sequence of fields written to it, and struct.unpack inverts struct.pack of the same format (struct.pack is proved to be given values in range)',
               'addresses, encodings and numbers of candidates are 32-bit; every address of the program has its original in the list or table given',
               'CAPSInstruction(e, a) has encoding e and address a', 'a file read is at least eight bytes long and, when it starts with the signature, has the form the writer is proved to leave'])

D('C31', ['shift'], ['shift:ALL'], PNOTE + 'after each removed group the tail is shifted by exactly that group, so that the bits outside the groups stand at the number of such bits before them; the swap '
  'touches only first bits; the construction sorts the groups.',
  assumptions=['the groups are disjoint, not empty, and start at a bit 0..31 of their word', 'a bitarray is a list of bits that frombytes fills and tobytes pads, most significant bit of a byte first; '
               "struct.pack('nI') lays words out as on this machine (little-endian)", 'the words of the data are 32-bit'])

BNOTE = 'Bounded: the contract of the functions is executed on generated inputs; not proved.'
BTECH = 'contracts of the functions executed on the real code over generated inputs (bounded stand-in)'


def B(pid, fns, budget=10, note=BNOTE):
    P(pid, T[pid]['title'], level='exploration', technique=BTECH, note=note, budget=budget,
      bounded=[f + ': executed on the generated inputs described under rule' for f in fns])


D('C06', ['packing'], ['packing:ALL'], PNOTE + 'the matrix of every exponent holds the closed form of the successive packing, which an induction shows to be a bijection; the order built from several of them has every number at the '
  'one place the ghosts give, in rows and flat.',
  assumptions=['the floating-point cells hold whole numbers below 2^53, for which their arithmetic is exact', 'floor(log(p, 4)) is an exponent n >= 0 with 4^n <= p (true of the floating-point logarithm for p < 4^24 - 1)',
               'a list of rows of one length stands for a table'])
D('C09', ['losses', 'bits'], ['losses:ALL'], PNOTE + 'for any word of the program, any order (given, or built from the number of packets) and any lost packets: the list left at its address has exactly the encodings that differ from the original in bits '
  'of lost units only, each once, in ascending order; corrupt_all_bits_tuples is proved here for ranges that may overlap, as the pieces of two lost neighbours do.',
  assumptions=['CAPSInstruction(e, a) has encoding e and address a', 'TextProgressBar.progress changes nothing but its own bar', 'the default order is a function of the number of packets, and its whole-number floats are integers (its contents are proved in C06)',
               'the program comes with one instruction per address, which has that address; saving the result is decided in C32, and the replay does it, too'])
for _p, _f in (
               ('C22', ['encode', 'huffman_size']),
               ('C27', ['ARMControlFlowGraph']), ('C28', ['build_dominator_tree', 'dominator_eval']),
               ('C29', ['build_dominance_frontier', 'place_phi_nodes']), ('C30', ['SSAFormBuilder']),
               ('C32', ['save_corrupted_program_to_json', 'load_corrupted_program_from_json'])):
    B(_p, _f)
