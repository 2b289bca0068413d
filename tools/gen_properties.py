#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so the statements are easy to edit)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, symbols):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                  why_tests_cant=why, anchors=dict(files=files, mechanism=[dict(name=n, where=', '.join(files)) for n in symbols])))
X = 'at-x64/src/'; M = 'at-mac/src/'; O = 'at-obj/src/'; A = 'at-asm/src/'

p('C01', 'Register and immediate instructions encode to exactly the requested operation',
  'For every mov between registers or from an immediate, and every push, pop, ret and syscall that the x64 encoder accepts, the emitted bytes are exactly one instruction of at most 15 bytes which, decoded by the processor manual\'s rules, performs that operation with that operand size on exactly those registers and that immediate value. '
  'No emitted byte is left over and none is missing.',
  ['inputs'], 'every register of the operand width in every operand position, every 8/16/32/64-bit immediate',
  'The unit tests compare one to three operand combinations per instruction with literal bytes; wrong behaviour for another register (extended, or one with a special code) or another immediate goes unseen.',
  [X+'instruction/mov.rs', X+'instruction/push.rs', X+'instruction/pop.rs', X+'instruction/ret.rs', X+'instruction/syscall.rs', X+'encoder/mod.rs', X+'encoder/bytecode.rs', X+'bytes.rs', X+'reg.rs'],
  ['Instruction::bytecode', 'Encoder::encode', 'ByteCode::to_bytes', 'BytesAtMost'])
p('C02', 'Memory operands address exactly the requested location',
  'For every memory operand (base register with offset, RIP-relative, or base+index*scale with displacement) of a store or lea, the emitted bytes are exactly one instruction which, decoded by the processor manual\'s rules, uses base + index*scale + displacement exactly as requested, the displacement being a 32-bit two\'s complement number. '
  'The register operand and the 64-bit operand size are the requested ones.',
  ['inputs'], 'every base, every index (RSP meaning none), every scale 0..3, every 32-bit displacement, every register operand',
  'Tests use displacement 0 and 42 with a few bases; the short-displacement boundary, the RSP/R12 and RBP/R13 special cases and the index extension are quantified over inputs the tests do not sample.',
  [X+'encoder/mod.rs', X+'encoder/bytecode.rs', X+'instruction/mov.rs', X+'instruction/lea.rs', X+'mem.rs', X+'reg.rs'],
  ['RegMemLike for Mem64', 'Encoder::encode', 'Mem64'])
p('C03', 'The announced immediate position is where the immediate is',
  'For every move of an immediate into a 32- or 64-bit register, the position reported for the immediate is the position of the 4- or 8-byte immediate field inside the encoded instruction. '
  'Overwriting exactly those bytes with any other value, as a linker does when it resolves a relocation, yields the same move with that value and changes nothing else.',
  ['inputs'], 'every destination register, every original immediate, every patched-in value',
  'The tests only check that position + width equals the instruction length for two registers.',
  [X+'instruction/mov.rs', X+'encoder/mod.rs'], ['Mov::offset_to_imm_bytes'])
p('C04', 'Mach-O records are written in the documented on-disk layout',
  'Every Mach-O record (file header, segment, section, symbol-table, dynamic-symbol-table and build-version commands, build tool entry, symbol entry, relocation entry) is written as exactly the documented number of bytes, every field at its documented offset and width in host byte order, with documented numeric codes, packed bit fields and zero-padded 16-byte names. '
  'A load command is its fixed part followed by all of its sections or tools in order.',
  ['inputs'], 'every field value of every record, every list of sections/tools, flags and attributes',
  'Each test writes one record and reads it back with the same code, so a layout error made symmetrically, or one visible only for other field values, passes.',
  [M+'header.rs', M+'load_command/mod.rs', M+'load_command/segment64.rs', M+'load_command/symtab.rs', M+'load_command/dysymtab.rs', M+'load_command/build_version.rs', M+'nlist.rs', M+'reloc.rs', M+'io.rs'],
  ['write_into', 'WriteExt'])
p('C05', 'Reading back a written Mach-O record returns the same record',
  'For every record and load command with representable fields, reading the bytes it was written as returns an equal record (flags and attributes as sets) and consumes exactly those bytes, so that records written one after the other read back one after the other.',
  ['inputs', 'histories'], 'every record value; every sequence of records in one stream; any number of sections and tools',
  'The round-trip tests use one value per record, empty flag sets, and never a load command with sections or tools.',
  [M+'header.rs', M+'load_command/mod.rs', M+'load_command/segment64.rs', M+'load_command/symtab.rs', M+'load_command/dysymtab.rs', M+'load_command/build_version.rs', M+'nlist.rs', M+'reloc.rs', M+'io.rs'],
  ['read_from', 'read_from_in', 'write_into', 'LoadCommand'])
p('C06', 'Files of the opposite byte order read as the same values',
  'A file header announces its byte order through its magic number and reading it reports that order. '
  'Every record read in the reported order yields the field values the file\'s producer stored, including the relocation entry\'s bit fields, whichever of the two byte orders the producer used.',
  ['inputs'], 'both byte orders, every record kind, every field value',
  'All tests read in the host byte order; the opposite-order paths are never executed.',
  [M+'header.rs', M+'io.rs', M+'reloc.rs', M+'nlist.rs', M+'load_command/mod.rs'],
  ['Header64::read_from', 'ReadExt', 'RelocationInfo::read_from_in', 'Endian'])
p('C07', 'Numeric codes are decoded faithfully or rejected',
  'Every numeric code read from a file (magic, cpu type and subtype, file type, header flags, section type and attributes, platform, tool, version, symbol type byte, relocation length and type) decodes to the value that encodes back to that same code, or is rejected. '
  'An unknown code is never silently read as a different known one, and every documented code is accepted.',
  ['inputs'], 'every 8-bit and 32-bit code value',
  'Tests decode one known code each; the claim is about all 2^32 codes, above all the unknown ones.',
  [M+'header.rs', M+'load_command/segment64.rs', M+'load_command/build_version.rs', M+'nlist.rs', M+'reloc.rs'],
  ['from_u32', 'from_u8', 'to_u32', 'to_u8', 'NTypeField', 'Flags', 'SectionAttrs'])
p('C08', 'Inconsistent load commands are rejected',
  'Reading a load command whose command number is not the one of the record read, or whose stated size is not the size of its fixed part plus the stated number of sections or tools, never returns a record. '
  'Every record returned has the right command number and size and, in a load command, as many sections or tools as it states.',
  ['inputs'], 'every byte sequence, both byte orders',
  'No test reads a malformed load command.',
  [M+'load_command/mod.rs', M+'load_command/segment64.rs', M+'load_command/symtab.rs', M+'load_command/dysymtab.rs', M+'load_command/build_version.rs'],
  ['LoadCommand::read_from_in', 'SegmentCommand64::read_from_in', 'BuildVersionCommand::read_from_in'])
p('C09', 'The string table returns every string stored in it',
  'After any sequence of insertions of ASCII names without NUL, each name can be looked up at the table length at the time of its insertion, index 0 is the empty string, the table length is 1 plus the sum of (name length + 1), and iteration starts with the stored names in insertion order. '
  'Earlier entries are never disturbed by later ones.',
  ['histories', 'inputs'], 'every sequence of insertions of any length, every name, every look-up position',
  'Tests insert one name and look up three fixed positions.',
  [M+'string_table.rs'], ['StringTable'])
p('C10', 'The regions of an object file are consistent, disjoint and in bounds',
  'For every object, the written file is the header, the load commands, the section contents padded to a multiple of 8, the relocation entries, the symbol entries and the string table, in this order without gaps or overlap. '
  'Every count, size and file offset stated in the header and load commands (command count and size, segment sizes, section offsets, relocation offsets and counts, symbol and string table offsets and sizes) equals the actual position and extent, and the file ends with the string table.',
  ['inputs'], 'every object: any section contents and sizes, any number of symbols and relocations, empty sections',
  'There is no test of the object writer at all; the layout arithmetic spans several functions that must agree for every combination of sizes.',
  [O+'macho.rs', O+'object.rs', O+'num.rs'],
  ['macho::write_into', 'gen_segment_command64', 'gen_section64s', 'gen_symtab_command', 'NumExt'])
p('C11', 'Every section of an object is described and stored faithfully',
  'The written file lists exactly the sections that have contents or symbols, in the order text, data, bss, each with its own segment and section name, type, attributes and size, and addresses that follow one another from 0. '
  'The bytes at the stated file offset of each text or data section are exactly that section\'s bytes; bss occupies no file space.',
  ['inputs'], 'every object: any section contents, any subset of empty sections',
  'There is no test of the object writer.',
  [O+'macho.rs', O+'object.rs'], ['gen_section64s', 'gen_section64_from_text', 'gen_section64_from_data', 'gen_section64_from_bss', 'write_section_data_into', 'Sections::iter'])
p('C12', 'The symbol table holds every symbol with its name, kind and value',
  'The written file has exactly one symbol entry per symbol of the object, section by section in order, whose name in the string table is the symbol\'s name. '
  'A symbol defined in a section has that section\'s number and its address (section address + offset), an absolute symbol has no section and its own value, an undefined symbol has no section, value 0 and is external; the external bit of the others is the symbol\'s visibility.',
  ['inputs'], 'every object: any number of symbols of the three kinds with any names, including names that are prefixes or duplicates of others',
  'There is no test of the object writer.',
  [O+'macho.rs', O+'object.rs', M+'string_table.rs', M+'nlist.rs'], ['gen_nlist64s', 'gen_string_table', 'get_strx'])
p('C13', 'Relocation entries refer to the right symbol and place',
  'The written file has exactly one relocation entry per relocation of the object, grouped by section in order and reachable through that section\'s stated offset and count, with the relocation\'s own address, pc-relative flag and length. '
  'Its symbol number is the index of a symbol entry whose name is the name the relocation asks for, and it is marked external.',
  ['inputs'], 'every object whose relocations name existing symbols: any number, any order, any names',
  'There is no test of the object writer.',
  [O+'macho.rs', M+'reloc.rs'], ['gen_relocation_infos', 'get_sym_idx', 'gen_section64s'])
p('C14', 'Assembled code, labels and relocations are placed where the source says',
  'For every accepted source, each section\'s contents are the concatenation, in source order, of what the lines of that section produce (initially the text section), and every label denotes the size of its section\'s contents at the point where it appears. '
  'Every symbolic operand yields one relocation in the section it appears in, at the position of that operand\'s field within that section, naming that symbol, and nothing else is emitted.',
  ['programs', 'histories'], 'every source text: any sequence of lines, any interleaving of sections',
  'No unit test assembles more than one line; the end-to-end script needs macOS and covers four programs.',
  [A+'assembler.rs', A+'parsers/line.rs', A+'reader.rs'], ['Assembler::read_from', 'SectionMut'])
p('C15', 'Exactly the symbols declared global become external',
  'In the assembled output a label is external if and only if the source contains a global declaration of exactly that name, before or after the label and in whatever section. '
  'Declaring a symbol global changes nothing else, and a global declaration without a label adds no symbol.',
  ['programs', 'histories'], 'every set of labels and global declarations in any order',
  'No unit test declares a global symbol.',
  [A+'assembler.rs', A+'parsers/global_symbol.rs', O+'object.rs'], ['Assembler::read_from', 'Object::symbols_mut'])
p('C16', 'Numeric literals and expressions denote their exact value',
  'A decimal or 0x-hexadecimal literal (digits, after an optional plus sign) denotes exactly the number written, and `a + b` and `a - b` denote the sum and difference modulo 2^64. '
  'A literal that does not fit the operand or data width it is used for, is malformed, or is followed by anything else is rejected, never truncated.',
  ['inputs'], 'every literal text and every pair of operands',
  'Tests evaluate three small expressions; overflow, width limits and malformed text are not sampled.',
  [A+'parsers/num.rs', A+'parsers/expr.rs', A+'parsers/instruction/mov.rs'], ['ParseStr for u64', 'Expr'])
p('C17', 'Data directives emit exactly the listed values',
  'db, dw, dd and dq emit the listed items in order: each number as 1, 2, 4 or 8 little-endian bytes, each quoted string as its bytes followed by the least number of zero bytes that makes it a multiple of that width. '
  'A number too large for the width or an unclosed string is rejected, and an optional leading word is the label and emits nothing.',
  ['inputs'], 'every directive, every list of numbers and strings of any length',
  'Tests use short lists with small numbers and one string length per width.',
  [A+'parsers/data.rs'], ['Data', 'DataDefIter', 'write_num', 'write_str'])
p('C18', 'Each source instruction assembles to the operation it names',
  'A mov, push, ret or syscall line is assembled to exactly the instruction it names with the destination, source and value it names: a mov to a register of its width takes a same-width register, a number that fits, or (32/64 bits) a symbol, whose relocation has that width and covers the immediate; push N pushes a value whose low 32 bits are N. '
  'Any other operand combination, and anything left over on the line, is rejected.',
  ['inputs'], 'every instruction line: every register pair, number and symbol operand',
  'The parser test has six mov lines; push, ret, syscall and symbol operands have no tests.',
  [A+'parsers/instruction/mod.rs', A+'parsers/instruction/mov.rs', A+'parsers/instruction/push.rs', A+'parsers/expr.rs'], ['Instruction::try_parse_str', 'mov::parse_str', 'push::parse_str'])
p('C19', 'Register names denote the right registers',
  'Each of the 16 names of each register width denotes exactly one register, distinct names distinct registers, no other text is a register name, and the name printed for a register is the name that denotes it. '
  'The 16- and 32-bit registers are the low parts of the 64-bit register the processor numbers alike.',
  ['inputs'], 'every text as a register name, every register of the four widths',
  'Tests mention ten of the names.',
  [A+'parsers/reg.rs', X+'reg.rs'], ['ParseStr for Reg64', 'ParseStr for Reg32', 'ParseStr for Reg16', 'Reg64::register_code', 'Display'])
p('C20', 'Every source line is classified as what it says or rejected',
  'A line\'s text up to the first semicolon determines its meaning: blank, section switch, global declaration, label, data or instruction. '
  'Unknown sections, opcodes and anything left over after a section, global or label line are rejected with an error naming the line; no line is silently skipped or taken for another kind.',
  ['inputs'], 'every line of text',
  'Only section lines are tested.',
  [A+'parsers/line.rs', A+'parsers/section.rs', A+'parsers/global_symbol.rs', A+'parsers/data.rs', A+'assembler.rs'], ['Line::parse_str', 'Section', 'GlobalSymbol'])
p('C21', 'I/O faults never corrupt or silently truncate what is written or read',
  'Whatever way a sink splits or interrupts writes, a completed write has put exactly the intended bytes into it, and if the sink reports an error the write does not complete normally. '
  'Whatever way a source splits reads, the same records are read, and a source that ends early or fails never yields a record.',
  ['fault_sequences', 'schedules'], 'every sequence of short, interrupted and failing reads and writes, for every record and object',
  'Tests only use in-memory buffers, which never write short or fail.',
  [M+'io.rs', M+'header.rs', M+'load_command/mod.rs', O+'macho.rs'], ['WriteExt', 'ReadExt', 'macho::write_into'])
p('C22', 'A failed assembly leaves existing files alone',
  'When the input cannot be assembled, the command exits with a nonzero status and neither the input file nor an already existing output file is changed.',
  ['inputs', 'fault_sequences'], 'every input text, every choice of input and output path',
  'The command-line program has no tests.',
  [A+'main.rs', A+'assembler.rs'], ['main', 'Config::init'])
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + '\n')
