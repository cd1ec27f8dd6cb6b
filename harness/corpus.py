"""A few valid statements per CPU as token lists (layout-free), used by the cross-CPU checks."""
import re


def toks(text):
    """canonical statement -> tokens (no strings inside)"""
    out = []
    for part in re.split(r'([()\[\]{}])|[ ,\t]+', text):
        if part:
            out.append(part)
    return out


_TEXT = {
    '6502': """NOP|LDA #$17|LDA $10|LDA $1234|LDA $1234,X|LDA ($10,X)|LDA ($10),Y|STA $10,X|JMP ($1234)|JMP $1234|ASL A|ROL A|BNE 5|LDX $10,Y|INX|BRK|ADC #10|CMP $FF""",
    'lr35902': """NOP|LD A,B|LD A,(HL+)|LD (HL-),A|LD BC,$1234|LD ($FF00+C),A|LDH A,($44)|BIT 7,H|JR NZ,-5|JP $150|CALL NZ,$1234|RST 38H|PUSH AF|ADD SP,-3|LD HL,SP+4|SWAP (HL)|LD (HL),$12|XOR A|STOP|RET Z""",
    'z80': """NOP|LD A,B|LD (HL),A|LD BC,$1234|LD A,($1234)|LD (IX+5),A|LD IY,$1234|BIT 7,(HL)|JR NZ,5|JP $150|CALL NZ,$1234|RST 38H|PUSH IX|EX DE,HL|LDIR|IN A,($BE)|OUT ($BF),A|SET 3,A|ADD IX,BC|IM 1|DJNZ 3""",
    '8086': """NOP|MOV AX,BX|MOV AL,5|MOV BX,0x1234|MOV AX,[BX]|MOV [BX+5],AL|ADD AX,1|INT 0x21|JMP 5|JZ 3|PUSH AX|POP DS|XOR AX,AX|INC CX|RET|LOOP 5|STOSB|CLI|LEA SI,[DI]""",
    '68000': """NOP|MOVE.W D0,D1|MOVE.L #$12345678,D3|MOVE.B (A0)+,D1|MOVE.W -(A3),D2|MOVEA.L D0,A1|ADDI.W #5,D3|JMP ($1234).W|LEA ($12345678).L,A0|ORI.B #1,D0|RTS|JSR ($1234).W""",
    'mips32': """add $t0,$t1,$t2|addi $a0,$zero,17|lui $t0,0x1234|lw $t0,4($sp)|sw $ra,-8($sp)|j 0x100|sll $t0,$t1,5|or $t0,$t1,$t2|jr $ra|beq $t0,$t1,4|nor $t0,$t1,$t2""",
    'thumb': """MOV r0,#5|ADD r0,r1,r2|ADD r1,#3|LSL r0,r1,#4|CMP r0,#7|LDR r0,[r1,#4]|PUSH {r0,r1}|BX r1|SUB r0,r1,#1|AND r0,r1|B 4|BEQ 2""",
    'ppc': """add r1,r2,r3|addi r1,r2,5|neg r1,r2|or r1,r2,r3|b 4|subf r1,r2,r3|nop|blr|mulli r1,r2,3|ori r1,r2,5""",
    'x86': """NOP|MOV AX,BX|ADD AX,1|PUSH AX|RET|CLI|STOSB|XOR AX,AX|JMP 5|INC EBX""",
}
CORPUS = {k: [toks(t) for t in v.split('|')] for k, v in _TEXT.items()}
