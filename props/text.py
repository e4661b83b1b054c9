"""The text of every property (source of properties.jsonl; gen.py writes it)."""
T = {}


def p(pid, title, statement, over, text, why, files, mech, state=()):
    assert len(title) <= 80, title
    T[pid] = {'id': pid, 'title': title, 'statement': statement, 'quantifier': {'over': list(over), 'text': text},
              'why_tests_cant': why, 'anchors': {'files': ['semantic_codec/' + f if not f.endswith('recover_program.py') else f for f in files],
                                                 'mechanism': [{'name': n, 'where': w} for n, w in mech]}}
    if state:
        T[pid]['anchors']['state'] = [{'name': n, 'meaning': m} for n, m in state]


BITS = 'architecture/bits.py'
p('C01', 'Bit-field operations are exact on 32-bit words',
  'Building a mask for a bit range, copying a range of bits from one word to another, and testing one bit or a range of bits give exactly the bit-by-bit definition: the bits of the range come from the source and every other bit of the destination is kept. '
  'A range that is reversed or that leaves bits 0 to 31 is refused with an error instead of producing a word.',
  ['inputs'], 'every word, every source and destination range, legal or not', 'The tests sample a few words and ranges; 32^3 ranges times 2^64 words remain.',
  [BITS], [('Bits', BITS)])
p('C02', 'Changing an instruction field changes that field and nothing else',
  'Replacing the condition, opcode, register or immediate field of a 32-bit instruction word stores the low bits of the new value in the positions of that field and leaves all the other bits of the word as they were. '
  'The immediate of a load or store is 12 bits wide, and 8 bits wide otherwise.',
  ['inputs'], 'every instruction word and every new field value', 'The existing tests of the modifier need a disassembler that is not installed, and they only try some words.',
  ['architecture/instruction_modifier.py', BITS], [('InstructionModifier.modify_*', 'architecture/instruction_modifier.py'), ('Bits.copy_bits', BITS)])
p('C03', 'The bit queue is a first-in first-out stream of fixed-size units',
  'Units taken out of the queue are exactly the units put in, bit for bit and in the same order, for every unit size from 1 to 32 bits, also when a unit straddles two words; taking a unit out changes only the requested bits of the value it is stored in. '
  'The queue reports itself empty exactly when every bit put in has been taken out, and its words hold exactly the bits still queued.',
  ['inputs', 'histories'], 'every unit size 1..32 and every sequence of insertions and removals', 'The tests run a handful of short histories with a few unit sizes.',
  [BITS], [('BitQueue', BITS)], [('_bytes/_eq_word/_eq_bit/_dq_bit', 'words, write position and read position of the stream')])
IL = 'interleaver/interleaver2d.py'
p('C04', 'Interleaving then deinterleaving with every packet returns the data',
  'For every list of 32-bit words, every interleaving order (a permutation of the packets) and every unit size that divides 32, deinterleaving the complete set of packets returns the words in their original order, followed only by zero padding, and reports no lost unit. '
  'Packets receive the units of the data in the round-robin order given, so the packets themselves are those a receiver expects.',
  ['inputs', 'configurations'], 'all data, orders, packet counts and unit sizes 1, 2, 4, 8, 16, 32', 'The tests use a 16-word message and one program with 2-bit units.',
  [IL, BITS], [('interleave / deinterleave', IL), ('BitQueue', BITS)])
p('C05', 'A lost packet costs exactly the units it carried, and each one is reported',
  'When some packets are missing, deinterleaving returns every unit carried by a received packet at its original position, sets the lost units to zero, and reports the word and bit position of exactly the lost units, once each and in stream order, up to the last round in which a received packet still has data. '
  'If every packet is missing the receiver is told so by an error.',
  ['inputs', 'fault_sequences'], 'all data, orders, unit sizes dividing 32 and all sets of lost packets', 'One test removes three packets of one message and looks for nine positions.',
  [IL, BITS], [('deinterleave', IL), ('BitQueue', BITS)])
p('C06', 'The successive-packing interleaving order is a permutation of the packets',
  'The square successive-packing matrix of exponent m contains every number from 0 to 4^m - 1 exactly once. '
  'The interleaving order built for any positive number of packets lists every packet from 0 to that number minus one exactly once.',
  ['inputs'], 'every exponent and every positive packet count', 'The tests look at single cells for exponents 2 and 3, and a check of 241 packets that is vacuous about duplicates.',
  [IL], [('sucesive_packing', IL), ('build_2d_interleave_sp', IL)])
CO = 'corruption/corruption.py'
p('C07', 'Loss prediction reports exactly the bits carried by the lost packets',
  'Given the interleaving order, the unit size and the size of the data, the predicted loss is, for every lost packet, exactly the start position of every unit of that packet that starts inside the data: no unit of a lost packet is missed, no unit of a received packet is reported, and nothing is reported twice. '
  'A unit that goes past the end of a word is reported as two pieces, one per word.',
  ['inputs', 'fault_sequences'], 'all packet counts, unit sizes 1..32, data sizes, orders and sets of lost packets', 'The tests compare a few manually computed positions.',
  [CO], [('predict_corruption', CO)])
p('C08', 'Exhaustive corruption yields every combination of the corrupted bits once',
  'Corrupting a set of disjoint bit ranges of a word yields exactly the words that differ from it in some subset of those bits: the original comes first, every combination appears, none appears twice, and bits outside the ranges are never changed. '
  'An illegal range in a set of ranges is refused with an error.',
  ['inputs'], 'every word and every set of disjoint ranges', 'The tests enumerate one or two words with ranges of a few bits.',
  [CO, BITS], [('corrupt_all_bits', CO), ('corrupt_all_bits_tuples', CO)])
CR = 'corruption/corruptors.py'
p('C09', 'Simulated packet loss yields exactly the candidates compatible with the loss',
  'After simulating packet loss every address of the program has the candidates obtained by trying every combination of the bits predicted lost in that word, ordered by encoding; the original instruction is always one of them, the candidates of one address are distinct, and an address with no predicted loss keeps exactly its original instruction. '
  'No address appears or disappears, and every candidate keeps the address it belongs to.',
  ['programs', 'fault_sequences'], 'every program, interleaving order and set of lost packets', 'The test corrupts one program with one lost packet and only prints the result.',
  [CR, CO], [('PacketCorruptor.corrupt', CR), ('predict_corruption', CO), ('corrupt_all_bits_tuples', CO)])
p('C10', 'Random corruption flips every subset of the selected bits, inside the range only',
  'Corrupting a given number of bits of an instruction selects that many distinct bits inside the given range and returns the original first and then every word obtained by flipping a non-empty subset of them, each once. '
  'Bits outside the range never change, whatever the random choices are.',
  ['inputs'], 'every word, range, amount and every outcome of the random generator', 'The tests see one random outcome at a time and only count the results.',
  [CO], [('corrupt_bits', CO)])
MC = 'metadata/metadata_collector.py'
p('C11', 'Collected metadata counts conditions, opcodes and storages exactly',
  'After collecting a program, the count of each condition, each opcode and each storage is the number of its occurrences over all the valid instructions, values that do not occur are absent, and undefined instructions contribute nothing. '
  'The list of distinct encodings holds one instruction per distinct encoding, in descending order of encoding.',
  ['programs'], 'every sequence of instructions', 'The tests check a few counts of a few disassembled programs.',
  [MC], [('MetadataCollector.collect', MC)])
p('C12', 'Read-distance metadata are the exact minimum, maximum and mean distances',
  'For every storage, the recorded minimum, maximum and mean are those of the distances, counted in valid instructions in between, from a write of the storage to its first later read, over all the writes that are read before being overwritten. '
  'A storage with no such read has no entry.',
  ['programs', 'histories'], 'every sequence of instructions', 'The tests check single values on short programs.',
  [MC], [('MetadataCollector.collect', MC)])
p('C13', 'Presence counts of a corrupted program count addresses, not candidates',
  'For every condition, opcode and storage, the recorded count is the number of addresses at which at least one valid candidate has it, however many candidates do; collecting again starts from zero. '
  'Values that no valid candidate has are absent.',
  ['programs'], 'every program with every number of candidates per address', 'No test checks these counts.',
  [MC], [('CorruptedProgramMetadataCollector.collect', MC)])
RE = 'metadata/recuperator.py'
p('C14', 'The scores given to candidates are probabilities',
  'Every partial score the recovery assigns to a candidate for its condition, opcode, registers, stack behaviour, branch target, register distance and control flow lies between 0 and 1, and is never zero for an original instruction, whenever the metadata were collected from the program that was corrupted; scoring never fails on such a program. '
  'The combined score of partial scores between 0 and 1 lies between 0 and 1, and is zero only if one of them is zero or the instruction is invalid.',
  ['programs'], 'every corrupted program of contiguous functions whose candidates include the originals, and all partial scores in [0, 1]', 'The tests score a few instructions of one program.',
  [RE], [('ProbabilisticRecuperator._compute_*', RE), ('probabilistic_rules*', RE)])
RP = 'recover_program.py'
p('C15', 'Pruning removes exactly the impossible and the dominated candidates',
  'Pruning the candidates of one address removes every candidate of score zero and, if some candidate has score one, every candidate whose score is below one; every other candidate stays, in its original order. '
  'The result is the number of candidates removed.',
  ['inputs'], 'every list of candidates with scores in [0, 1]', 'No test runs the pruning.',
  [RP], [('remove_bad_candidates_at_addr', RP)])
SB = 'solution/solution_builders.py'
p('C16', 'Forward elimination never discards an original instruction',
  'Removing the candidates that no longer fit the remaining metadata removes no candidate whose condition, opcode and registers are all still available, removes from every later address all the invalid ones except possibly the last remaining one, and leaves the order of the others unchanged. '
  'The original instruction of an address that is still to be solved therefore always survives when the metadata come from the original program.',
  ['programs', 'histories'], 'every candidate program containing its original, at every step of the construction', 'The tests run one or two small programs and look at the final size.',
  [SB], [('_remove_invalid_instructions / _comply_constraints / _update_constraints', SB)])
p('C17', 'The solution identifies the original among the candidates',
  'For every address with more than one candidate the solution records, in the order in which the addresses are solved, the index of the original instruction with just enough bits to tell all the candidates of that address apart, and the reported size is the total number of those bits. '
  'Decoding the recorded bits with the same candidate lists therefore gives back the original program.',
  ['programs'], 'every candidate program that contains its original', 'The tests only check sizes of small programs.',
  [SB, BITS], [('ForwardConstraintSolutionBuilder', SB), ('AbstractForwardConstraintSolutionBuilder.build', SB)])
SI = 'solution/solution_io.py'
p('C18', 'A solution file read back gives the original and the candidates before it',
  'Writing a candidate program and reading the file back gives, for every address, the candidates up to and including the first one equal to the original, in the same order and with the same encodings and addresses, and the original program. '
  'A file that does not start with the signature is refused, and writing an address whose candidates do not contain the original is refused.',
  ['programs'], 'every program with 32-bit addresses and encodings', 'The test writes and reads one program.',
  [SI], [('SolutionWriter / SolutionReader', SI)])
SQ = 'solution/solution_quality.py'
p('C19', 'Solution counts and sizes are exact',
  'The number of solutions is the product of the number of candidates over all the addresses, the histogram counts how many addresses have each number of candidates, and the size is the sum over the addresses of the base-two logarithm of the number of candidates. '
  'The highest depth is the largest relative position of an original instruction in its candidates ordered by score.',
  ['programs'], 'every candidate program', 'No test checks the count against the product.',
  [SQ], [('SolutionQuality._count_solutions / evaluate', SQ)])
p('C20', 'The exact-sum constraint accepts exactly the assignments with the right totals',
  'A complete assignment is accepted exactly when the occurrences of every value over the chosen valid instructions equal the required totals; a partial assignment is rejected only if it already exceeds a required total or uses a value that is not allowed. '
  'Forward checking hides only candidates whose addition would exceed a total or use a value that is not allowed, so no solution is lost.',
  ['inputs', 'histories'], 'every set of variables, domains, totals and partial assignments', 'The tests solve two small problems.',
  [SB], [('ExactFieldSumConstraint.__call__', SB)])
PR = 'probability/probabilities.py'
p('C21', 'Union and intersection of independent events are computed exactly',
  'The intersection of independent events is the product of their probabilities, and their union is one minus the product of the complements, for every non-empty list of probabilities; an empty union is refused with an error. '
  'Both therefore lie between 0 and 1.',
  ['inputs'], 'every list of probabilities', 'The tests check lists of two to four numbers.',
  [PR], [('indep_intersection / indep_events_union', PR)])
HU = 'compressor/huffman.py'
p('C22', 'Huffman codes are prefix free and optimal',
  'For every table of at least two weighted symbols the code gives every symbol one non-empty codeword, no codeword is a prefix of another, and the total weighted length is the least any prefix-free code can have. '
  'The reported size is that total weighted length.',
  ['inputs'], 'every table of positive weights', 'The module has no running test.',
  [HU], [('encode / huffman_size', HU)])
p('C23', 'Part frequencies count every occurrence and list every instruction once',
  'The frequency of a register, opcode or condition is its number of occurrences over all the instructions of the program, and the list kept for it holds exactly the instructions that have it, each once and in program order. '
  'Counting does not change the program.',
  ['programs'], 'every program', 'The module has no running test.',
  [HU], [('InstructionPartFrequencyCounter.freq_info / count', HU)])
DR = 'architecture/disassembler_readers.py'
p('C24', 'Reading a disassembly keeps every instruction, its address and its byte order',
  'Reading a disassembly file gives one instruction for every instruction line, in file order, with the address and the encoding written on the line, and assigns it to the function whose start address was met last. '
  'Reversing the byte order of a word reverses its four bytes, for numbers and for hexadecimal text alike, and doing it twice gives the word back.',
  ['inputs'], 'every word, every file of instruction lines', 'The tests read four fixed files.',
  [DR, 'architecture/instruction.py', 'architecture/functions.py'], [('read / read_functions / read_instructions', DR), ('reverse_endianess', 'architecture/instruction.py')])
RU = 'metadata/probabilistic_rules/rules.py'
p('C25', 'Converting between instruction lists and address tables loses nothing',
  'Turning a list of instructions with distinct addresses into an address table gives one single-candidate entry per instruction, turning a table into a list gives its entries in ascending order of address, and flattening the functions of a program gives all their instructions in ascending order of address together with the first and last address of every function. '
  'The two conversions of a list and back give the instructions sorted by address.',
  ['programs'], 'every list of instructions and every list of functions', 'The conversions are only used in passing by tests on fixed programs.',
  [RU, 'architecture/functions.py'], [('from_instruction_*', RU), ('ElfFunction', 'architecture/functions.py')])
p('C26', 'The branch target is the sign-extended offset plus the address plus eight',
  'For every branch instruction word and address, the computed jump target is the address plus eight plus four times the 24-bit two\'s complement offset of the word, modulo 2^32; an instruction that is not a branch has none. '
  'Looking up the target in a list of instructions gives the first instruction at that address, or nothing if no instruction is there.',
  ['inputs'], 'every instruction word and every 32-bit address', 'The tests check a few branches.',
  ['architecture/instruction.py', BITS], [('Instruction.jumping_address / branch_to', 'architecture/instruction.py')])
CF = 'static_analysis/cfg.py'
p('C27', 'The control-flow graph holds every instruction exactly once, in order',
  'Every defined instruction of a program is in exactly one basic block, the instructions of a block are consecutive defined instructions in program order, and undefined instructions are in no block. '
  'Every branch to a defined instruction of the program has an edge from its block to the block that starts with its target, or to the conditional node in front of that block.',
  ['programs'], 'every list of instructions with branches and conditions', 'The tests build the graphs of a few fixed functions.',
  [CF], [('ARMControlFlowGraph.build / _split_node / _branch_instruction', CF)])
DO = 'static_analysis/dominators.py'
p('C28', 'Immediate dominators are correct on every flow graph',
  'For every flow graph and root, the immediate dominator of every reachable node other than the root is the closest other node that lies on all the paths from the root to it, and the root and the unreachable nodes have none. '
  'The dominator tree has exactly the edges from each immediate dominator to the nodes it immediately dominates.',
  ['programs'], 'every directed graph with a root', 'The tests check three fixed graphs.',
  [DO], [('build_dominator_tree / dominator_eval', DO)])
SS = 'static_analysis/ssa.py'
p('C29', 'Dominance frontiers and phi placement are exact',
  'The dominance frontier of a node is exactly the set of nodes that have a predecessor dominated by the node but are not themselves strictly dominated by it. '
  'Phi functions are placed for exactly the variables read before being written in some block, at every node but the end reached by repeating the frontier from the blocks that write the variable.',
  ['programs'], 'every flow graph and every placement of reads and writes', 'The tests check two fixed graphs.',
  [SS], [('build_dominance_frontier / place_phi_nodes', SS)])
p('C30', 'SSA renaming names every definition once and every read by what reaches it',
  'After renaming, no two definitions (instruction writes or phi functions) of a variable share a name, every read uses the name of the nearest definition that dominates it (the initial value if there is none), and every phi function has one parameter per incoming reachable edge naming the definition that reaches the end of that predecessor. '
  'Reads of an instruction see the names valid before its own writes.',
  ['programs'], 'every flow graph and every placement of reads and writes', 'The test checks the result on one fixed function.',
  [SS], [('SSAFormBuilder._rename_node / _new_name', SS)])
SC = 'compressor/shiftcompressor.py'
p('C31', 'Removing the lost bits removes exactly those bits and keeps the others in order',
  'Shift compression outputs exactly the bits of the data that are not in a removed group, in their original order, padded with zero bits to a whole byte. '
  'Swap compression keeps every bit at its position except that the first bit of every removed group, given by its word and bit, becomes zero.',
  ['inputs'], 'all data and all sets of removed positions', 'The module has no test.',
  [SC], [('ShiftCompressor.compress / SwapCompressor.compress', SC)])
p('C32', 'A corrupted program saved to disk and loaded again is the same program',
  'Saving a candidate program and loading the file again gives the same addresses and, for each of them, the same candidate encodings in the same order, each at its address. '
  'Saving does not change the program.',
  ['programs'], 'every candidate program', 'The tests do not compare a loaded program with the saved one.',
  [CO], [('save_corrupted_program_to_json / load_corrupted_program_from_json', CO)])
