#!/usr/bin/env python3
"""Writes properties.jsonl (kept as Python so the long strings stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mechanism],
                               observe_at=observe or ['Assembler.assemble', 'Assembler.link', 'Assembler.assembled_bytes'],
                               hook_needed=None)))
A='necroassembler/assembler.py'; T='necroassembler/tokenizer.py'; S='necroassembler/statements.py'
M='necroassembler/macros.py'; U='necroassembler/utils.py'; L='necroassembler/linker.py'
C='necroassembler/cpu/'; PL='necroassembler/platforms/'

prop('C01','Source layout, comments and letter case never change the output',
 "For every program, the assembled image depends only on the sequence of statements: any mix and amount of spaces, tabs and commas between tokens, blank lines, LF or CRLF line ends, `;` comments with arbitrary text up to the end of the line, a missing final newline, and a label on its own line or in front of a statement all give the same image, on every CPU. Mnemonics, register names, directive names and macro names may be written in any letter case (an assembler declared case sensitive excepted), while label and define names are case sensitive. Characters inside a quoted string (separators, semicolons, colons, brackets, the other quote, backslash-escaped quotes) are data and are never interpreted as layout. A quote that is never closed is rejected at the line that opens it, not dropped.",
 ['inputs','programs'],'all programs over the accepted statements of each CPU, and all layouts and letter-casings of each',
 'the tests use one fixed layout per statement; which separator, comment or quote combination is mis-tokenised depends on the text',
 [T,S,A],[('tokenizer state machine','Tokenizer._state_token/_state_string/_state_char/_state_comment'),('key normalisation','Instruction.assemble, Directive.assemble, Assembler.register_instruction/register_directive')])
prop('C02','Data directives emit exactly the stated bytes, in order',
 "`.db`/`.byte`, `.dw`/`.word` and `.dd`/`.dl`/`.dword` emit every operand in order, each number as 1, 2 or 4 bytes in the assembler's endianness and each quoted string as its characters in ASCII (`.db`), or in the platform utf-16/utf-32 encoding for `.dw`/`.dd`; the location counter advances by exactly the number of bytes emitted. `.db_to_ascii`/`.dw_to_ascii` (and the zero-terminated `z` forms) emit the decimal digits of each number, and of a label's address zero-padded to 3 or 5 digits; `.incbin`, `.inccsv`, `.inccsv_le16` and `.incjson` emit exactly the content (or the listed values) of the named file in order.",
 ['inputs'],'all operand lists, values, strings, endiannesses and file contents','the tests cover two single-operand cases; order, widths and endianness must hold for all operand lists',
 [A,U],[('data directives','Assembler.directive_db/dw/dd/db_to_ascii/dw_to_ascii/incbin/inccsv/incjson'),('packing','utils.pack_*')])
prop('C03','Integer literals keep their exact value or are rejected',
 "A literal written in any base the assembler declares (hexadecimal, binary, octal, decimal prefixes and suffixes, plain decimal, a single quoted character as an operand of its own) denotes exactly that number wherever a number is accepted. A number that does not fit the field it is written to is rejected and never truncated: an n-bit unsigned field accepts -2^(n-1)..2^n-1 in decimal (negatives as two's complement), an n-bit signed field accepts -2^(n-1)..2^(n-1)-1 in decimal, and non-decimal literals accept 0..2^n-1 and no sign.",
 ['inputs','configurations'],'all literals, bases, field widths, signedness and prefix/suffix configurations','tests sample about a dozen literals at one width',
 [A,U],[('literal parser','Assembler.parse_integer/_internal_parse_integer'),('range check','utils.in_bit_range, utils.in_bit_range_decimal')],['Assembler.parse_integer','Assembler.assemble'])
prop('C04','Constant and label expressions evaluate left to right, exactly',
 "An operand `x op y op z ...` with `+ - * / & |` over numbers and labels has the value obtained by applying the operators strictly left to right with integer arithmetic (`/` rounds down, a trailing operator without operand means 1), after any leading `>` (drop that many low bytes) and `<` (keep that many low bytes) have been applied to the first term. This holds wherever the labels are defined (before or after the reference when the expression starts with a label), the result is range checked as a whole, and an expression naming an undefined label is an error.",
 ['inputs','programs'],'all operator chains, operand kinds and label placements','tests evaluate seven fixed expressions',
 [A],[('expression evaluation','Assembler._get_math_formula, apply_math_formula'),('label resolution','Assembler.get_label_absolute_address_by_name')])
prop('C05','Absolute label references resolve to the label address',
 "Every absolute reference to a label, in a data directive or an instruction operand of any CPU, is linked to exactly the value that writing the label's address as a number would have produced, in the right field and byte order, independently of whether the label is defined before or after the reference and of how many other references, origins or sections are in the program. A label's address is the location counter where it is defined (origin plus bytes emitted and RAM reserved since), labels are case sensitive, a second definition or a numeric or malformed name is rejected, an address that does not fit the field is rejected, and a reference to a label that is never defined makes linking fail.",
 ['programs','histories'],'all programs with labels, placements of definitions and references, on every CPU','unit tests resolve a handful of labels, mostly on the 6502 and LR35902, never several in one program with different origins',
 [A,S]+[C+x for x in ('mos6502.py','lr35902.py','z80.py','intel8086.py','x86.py','mc68000.py','mips32.py','thumb.py','powerpc.py')],[('translation table','Assembler.add_label_translation, _resolve_labels'),('label definition','statements.Label.assemble')])
prop('C06','PC-relative references reach their target or are rejected',
 "For every PC-relative instruction of every CPU (branches, jumps, calls and loops to a label), the displacement encoded at link time makes the CPU's own branch rule arrive exactly at the label (or at the value of the label expression given as target), forwards or backwards, at any origin and at any distance the field can hold. A target beyond the field's range or off the required alignment makes linking fail; it is never wrapped, truncated or rounded.",
 ['programs','inputs'],'all relative instructions, distances (in particular at the range limits), directions and origins','tests use one or two short distances on some CPUs and no range limits',
 [A]+[C+x for x in ('mos6502.py','lr35902.py','z80.py','intel8086.py','x86.py','mc68000.py','mips32.py','thumb.py','powerpc.py')],[('relative resolution','Assembler._resolve_labels, get_label_relative_address_by_name')])
prop('C07','Layout directives place every byte at its stated location',
 "The location counter equals the current origin plus everything emitted or reserved since, and `.org`, `.fill`, `.align`, `.goto`, `.upto`, `.ram` and the data directives move it and pad the image exactly so that: `.fill n v` emits n bytes v, `.align n` pads with the fill value to the next multiple of n, `.goto a` pads up to address a, `.upto k` pads the current origin block up to size k, and `.ram n` reserves n addresses and emits nothing. An origin with an end pads its block up to and including the end, when a higher origin is selected beyond it or when the program ends, and up to a new origin inside it; moving backwards over emitted code or into an earlier bounded block, or an end before its start, is rejected.",
 ['histories','inputs'],'all sequences of layout and data directives with all origins, sizes and fill values','tests contain six short directive sequences; the counters interact over arbitrary histories',
 [A],[('layout directives','Assembler.change_org, directive_fill/goto/upto/align/ram'),('final fill','Assembler.assemble')],['Assembler.pc','Assembler.assembled_bytes','label addresses'])
prop('C08','A macro call assembles as its expanded body',
 "Calling a macro produces exactly what its recorded body instructions would produce if written at the call site with every parameter replaced by the corresponding argument, also inside composite tokens and for several calls, nested calls of other macros, and defines used in the body; the definition itself emits nothing and a call never changes what later calls produce. A macro defined inside a macro, a label inside a macro, an end without a start, and a call with too few arguments are rejected.",
 ['programs','histories'],'all macro bodies, parameter lists, argument lists and call sequences','tests expand one macro with plain whole-token arguments',
 [M,S,A,U],[('recording and expansion','Macro.assemble, Instruction.assemble, Assembler.macro_start/macro_end'),('substitution','utils.substitute_with_dict')])
prop('C09','A define assembles as its substituted value',
 "After `.define NAME value`, every later occurrence of NAME as a whole name, alone or as a name inside a composite token such as `(NAME),` `#NAME+1` or `NAME|OTHER`, assembles exactly as if the value had been written there; names that merely contain NAME, differ in letter case, occur inside another name or occur before the definition are untouched. Redefinition affects later statements only, substitution is done once (values are not substituted again), label definitions and directive names are never substituted, and built-in defines of a platform behave the same and can be overridden.",
 ['programs','inputs'],'all define names, values, uses in composite tokens and redefinition histories','one test uses three defines in one expression',
 [A,S,U],[('substitution','utils.substitute_with_dict'),('define directive','Assembler.directive_define, register_define')])
prop('C10','An included file assembles as if its text were in place',
 "`.include` of a file (a path from the working directory) gives the same image, labels, location counter, macros, defines, origin padding and link result as writing the file's text in place of the directive, at any nesting depth and position. An error inside an included file is reported with that file's name and its own line number.",
 ['programs'],'all splits of a program into nested included files','no test includes a file',
 [A,T],[('include directive','Assembler.directive_include, Assembler.assemble')])
prop('C11','Bad statements are rejected with their location and emit nothing',
 "Any instruction text on any CPU either assembles or is rejected with one of the library's own assembler errors; an unknown mnemonic or directive, unsupported operands or an out-of-range value is never assembled to something else. The error raised while assembling names the line number (counting LF line ends, comments and blank lines included) and the file of the offending statement. A rejected instruction, label or single-value directive leaves the image, the labels and the location counter as the preceding statements produced them, and leaves no pending label reference: assembling can go on with the next statement as if it had not been there. A directive with a wrong number or kind of arguments is rejected. Calling a macro with too few arguments is rejected the same way, and a macro call that fails does not change the macro.",
 ['inputs','programs'],'all instruction texts (including arbitrary garbage) on every CPU, at all positions in a program','tests assert the error class of some fixed bad statements, never the location nor the resulting state',
 [S,A,T,'necroassembler/exceptions.py'],[('error wrapping','Instruction.assemble'),('line counting','Tokenizer.parse')])
prop('C12','Assembling is deterministic, incremental and isolated per instance',
 "Assembling the same source always yields the same image, whatever other assemblers exist or have run in the process: labels, defines, macros, registered instructions and literal settings of one instance are never visible in another instance or in a class. Without a bounded origin, feeding a program to one assembler in several calls split at statement boundaries gives the same image and labels as one call, a label of one call being usable in another.",
 ['histories','programs'],'all interleavings of operations on several assembler instances and all splits of a program','each test uses a fresh single instance; state leaks need several',
 [A],[('per-instance state','Assembler.__init__'),('class attributes','defines, *_prefixes, instruction tables')])
prop('C13','A repeat block assembles as its body written n times',
 "`.repeat n` ... `.endrepeat` produces exactly what writing the enclosed statements n times (labels defined once, at the first copy) would produce, including references to labels in every copy after linking, and leaves the location counter after the last copy. Nested repeats, an end without a start, and a count that is zero or not a number are rejected.",
 ['programs'],'all repeat bodies (data, instructions, references, layout directives, definitions, macro calls, included files) and all counts','one test repeats a single constant byte',
 [A],[('repeat directives','Assembler.directive_repeat, directive_end_repeat')])
prop('C14','Bit-packing helpers place every value in exactly its field',
 "The packing helpers that assemblers are built from are exact: a bit-field pack puts each value in exactly the given inclusive bit range of the base (negatives as two's complement of the field width), changes no other bit, and rejects a value that does not fit or a reversed range; byte, 16-, 32- and 64-bit packers emit the value modulo their width in the named endianness, and the range predicates answer exactly whether a value fits.",
 ['inputs'],'all bases, fields and values','tests pack three fixed combinations',
 [U],[('pack helpers','utils.pack_bits, pack_bit, pack_*'),('range predicates','utils.in_bit_range, in_bit_range_decimal, neg_fix')],['necroassembler.utils'])
prop('C15','Custom assemblers: registration, label fixups and link passes',
 "An assembler built on the framework sees every instruction and directive it registers (by decorator with several names, by registration call, or as constant bytes) called once per statement with that statement's tokens, its returned bytes appended in order, and constant-byte instructions reject arguments; a later registration of a name replaces the earlier one, and other classes and instances are not affected. The operand matchers (`match`, `unbound_match`) accept exactly the operand lists whose operands each satisfy their pattern (anything, a name in any letter case, one of several names, a predicate), and `apply` applies each converter to its operand. A label fixup it requests is applied at link time to exactly the requested bytes (offset, size, endianness), passing through its alignment check, range check, filter, bit field and hook as requested and leaving all other bytes unchanged; pre-link passes run before and post-link passes after resolution, each exactly once per link, and the custom linker produces the final image.",
 ['configurations','programs'],'all fixup parameters, registrations, pass lists and statement sequences','one test registers a single opcode with a plain 4 byte fixup',
 [A,S,L],[('registration','opcode/directive/pre_link/post_link decorators, Assembler._discover, register_*'),('fixups','Assembler.add_label_translation, _resolve_labels'),('link','Assembler.link')],['Assembler subclass API'])
prop('C16','The command line tool produces what the API produces',
 "Running an assembler's command line entry point with sources and a destination writes exactly the image that assembling the files in that order, running the given passes, and linking through the API produces, for every platform wrapper. A failing assembly raises the same error and leaves no destination file behind, sources are never modified, and a call without both a source and a destination writes nothing.",
 ['programs','configurations'],'all source file lists, programs and wrappers','no test runs the entry point',
 [A,'setup.py'],[('entry point','Assembler.main, Assembler.assemble_file, Assembler.save')],['Assembler.main'])

prop('C17','Logging reports what is assembled and changes nothing',
 "The .log directive never changes the result: a program with .log (bare, on or off) statements at any positions gives the same image, labels and errors as the same program with blank lines in their place. While logging is on, every statement of the source is reported once, in source order, with its location, the bytes it appended and their offset in the image (or as not assembled when it appended nothing), and each label operand resolved by linking is reported with the bytes stored and their offset. An argument that is neither on nor off is rejected.",
 ['programs'],'all programs and positions of the directive','no test uses .log',
 [A],[('log','Assembler.directive_log, _assemble_statements, _resolve_labels')],['the .log directive'])

def cpu(id, name, file, what, extra, files=None):
    prop(id, '%s instructions encode as the CPU manual defines' % name,
     "Every %s instruction form the assembler accepts is encoded exactly as the CPU's manual defines it (opcode, operand fields, byte order, length) for every operand value and register in every operand position, and %s. %s" % (name, what, extra),
     ['inputs'], 'all instruction forms, registers and operand values', 'the tests fix one operand value per form (or do not touch this CPU at all); a wrong field only shows for other registers or values',
     files or [C+file], [('instruction table and encoders', C+file)])
cpu('C20','6502','mos6502.py','all 151 documented opcodes are reachable','A numeric operand or already known label that fits one byte selects the zero page form when the instruction has one and the absolute form otherwise; an operand outside its field or an addressing mode the instruction lacks is rejected.')
cpu('C21','LR35902 (Game Boy)','lr35902.py','the complete documented instruction set (including the CB page, `LDH`, `(HL+)`/`(HL-)`, `SP+n` and `STOP`) is reachable','Register and condition names are case insensitive; an operand that does not fit its field, an undocumented bit number or restart vector, or a register the form lacks is rejected.')
cpu('C22','Z80','z80.py','the documented instruction set (including the CB, ED, DD, FD, DDCB and FDCB pages) is reachable, and so are the undocumented instructions of the same pages: SLL, IXH IXL IYH IYL as 8-bit registers, IN F,(C), and LD r,op (IX+d) which also stores the result in r','Index displacements are signed bytes; an operand that does not fit its field, or an operand combination the CPU lacks, is rejected.')
cpu('C23','8086','intel8086.py','the supported forms (all ModRM register and memory modes, immediates, relative and far transfers, string, stack and flag instructions) decode back to the operands written','Operands that do not fit their field or size-mismatched register pairs are rejected.')
cpu('C24','x86 (16/32/64-bit)','x86.py','the supported forms (register, memory and immediate operands of 16, 32 and 64 bits, stack, near branches, conditional moves, control registers, descriptor tables, instructions without operands and REP prefixes) decode back to the operands written, in the mode selected by `.bits`','Operand and address sizes select the prefixes the mode needs; operands of different sizes, 64 bit registers outside the 64 bit mode, missing or additional operands, and values that do not fit are rejected.')
cpu('C25','68000','mc68000.py','every supported instruction accepts its documented sizes and addressing modes (register, indirect, postincrement, predecrement, displacement, index, absolute, PC-relative, immediate) with extension words in the right order','A value that does not fit its field, or an addressing mode the form lacks, is rejected.')
cpu('C26','MIPS32','mips32.py','every listed mnemonic is reachable in both endiannesses with all register names (numeric and conventional)','Immediates are range checked for their signedness, load/store offsets are signed 16-bit, and an operand that does not fit is rejected.')
cpu('C27','Thumb','thumb.py','every listed mnemonic and operand form is reachable','Immediates that do not fit, misaligned offsets and high registers in low-register forms are rejected.')
cpu('C28','PowerPC','powerpc.py','every mnemonic form of its table built from general or floating registers, numbers and branch targets is reachable','Operands that do not fit their field are rejected.')

prop('C30','ELF output is a well-formed object with the program content',
 "Linking through the ELF linker (32 or 64 bit, little or big endian) yields a structurally valid ELF object: header fields and section header table consistent with the file, one section per `.section` in order with its name, start address, flags from its permissions and exactly the bytes assembled in it, and valid string and symbol tables. Every exported, defined label appears once in the symbol table with its section-relative value and section, labels that are not exported do not appear, and a reference to an undefined symbol is handed to relocation instead of failing.",
 ['programs','configurations'],'all section layouts, exports and ELF classes and byte orders','no test links to ELF',
 [L,A,PL+'i386_elf32.py',PL+'x86_64_elf64.py',PL+'ppc_elf32.py'],[('ELF writer','linker.ELF.link'),('sections','Assembler.directive_section, directive_export')],['Assembler.link(ELF(...))'])
prop('C31','Game Boy cartridges carry correct headers and checksums',
 "For every program and every combination of cartridge directives, the linked Game Boy image holds the entry jump, the boot logo and each requested field (title, licensee, CGB and SGB flags, cartridge type, destination) at its documented address, a header checksum that the boot ROM accepts and a global checksum equal to the 16-bit sum of all bytes other than its own two. All other bytes are exactly the assembled program, a program too short to hold a header links unmodified, and a cartridge that is not at $100, a field before the cartridge or a field value that is too long is rejected.",
 ['programs','configurations'],'all programs, field values and directive orders','no test builds a cartridge',
 [PL+'gameboy.py'],[('cartridge directives and link passes',PL+'gameboy.py')])
prop('C32','NES images carry a correct iNES header and symbol files',
 "For every program and combination of cartridge directives, the NES image starts with the 16-byte iNES header whose PRG and CHR bank counts hold exactly the requested values (2 and 0 by default), the program follows unmodified, and a cartridge directive that is misplaced or has an out-of-range argument is rejected. The symbol lists written by the tool name every ROM label ($8000-$FFFF) and every RAM label ($0000-$07FF) with its address, each in the list it belongs to.",
 ['programs','configurations'],'all programs, field values and directive orders','no test builds a NES image',
 [PL+'nes.py'],[('cartridge directives',PL+'nes.py')])
prop('C33','Image import converts every pixel to the console tile format',
 "The tile directives of the Game Boy, NES and Master System platforms convert an indexed image into tiles in row-major order of 8x8 blocks, each pixel's palette index stored in exactly its bit planes (2 bits planar per tile for NES, 2 bits interleaved per row for Game Boy, 4 bits interleaved per row for SMS), and decoding the emitted bytes gives back every pixel. Images with unsupported mode, size or color index are rejected.",
 ['inputs'],'all image sizes and pixel contents','no test imports an image',
 [PL+'gameboy.py',PL+'nes.py',PL+'sms.py'],[('tile encoders',PL+'*.py')])
prop('C34','Executable wrappers write correct headers and checksums',
 "The GBA, Mega Drive and PlayStation tools produce images whose header fields (checksums, sizes, load addresses, magic, padding to the required block size) are exactly what the respective hardware or loader requires for that program, and leave every other assembled byte unchanged.",
 ['programs'],'all program contents and lengths','no test runs these wrappers',
 [PL+'gba.py',PL+'genesis.py',PL+'psx.py'],[('link passes',PL+'*.py')],['main() of each platform'])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
with open(out,'w') as f:
    for p in P:
        assert len(p['title'])<=80, p['title']
        f.write(json.dumps(p)+'\n')
print(len(P))
