"""PowerPC reference: fixed bits and operand fields per mnemonic form.

Field notation is LSB:WIDTH plus the operand kind (g general register, z general register or 0, f floating register,
n number, s signed number, u unsigned number, p displacement in bytes of a pc relative branch, b byte address of an
absolute branch; both stored without their two low bits).  Obtained at development time from llvm-mc (437 forms assembled
with distinct and with maximal operands), and from the PowerPC 601 / POWER manuals (primary and extended opcode
numbers) for the forms LLVM does not know.  Not derived from the code under test.
"""
TABLE = """
[21:5g 16:5z 0:16s]
addi=38000000
[21:5g 0:16s]
li=38000000
[21:5g 16:5z 0:16u]
addis=3c000000
[21:5g 0:16u]
lis=3c000000
[21:5g 16:5g 0:16s]
addic=30000000 addic.=34000000 subfic=20000000 dozi=24000000 mulli=1c000000
[21:5g 16:5g 11:5g]
add=7c000214 add.=7c000215 addo=7c000614 addo.=7c000615 addc=7c000014 addc.=7c000015 addco=7c000414 addco.=7c000415 adde=7c000114 adde.=7c000115
addeo=7c000514 addeo.=7c000515 divw=7c0003d6 divw.=7c0003d7 divwo=7c0007d6 divwo.=7c0007d7 divwu=7c000396 divwu.=7c000397 divwuo=7c000796
divwuo.=7c000797 lbzux=7c0000ee lhzux=7c00026e lhaux=7c0002ee lwzux=7c00006e mull=7c0001d6 mull.=7c0001d7 mullo=7c0005d6 mullo.=7c0005d7
mullw=7c0001d6 mullw.=7c0001d7 mullwo=7c0005d6 mullwo.=7c0005d7 mulhw=7c000096 mulhw.=7c000097 mulhwu=7c000016 mulhwu.=7c000017 stbux=7c0001ee
sthux=7c00036e stwux=7c00016e subf=7c000050 subf.=7c000051 subfo=7c000450 subfo.=7c000451 subfc=7c000010 subfc.=7c000011 subfco=7c000410
subfco.=7c000411 subfe=7c000110 subfe.=7c000111 subfeo=7c000510 subfeo.=7c000511 doz=7c000210 doz.=7c000211 dozo=7c000610 dozo.=7c000611 mul=7c0000d6
mul.=7c0000d7 mulo=7c0004d6 mulo.=7c0004d7 div=7c000296 div.=7c000297 divo=7c000696 divo.=7c000697 divs=7c0002d6 divs.=7c0002d7 divso=7c0006d6
divso.=7c0006d7
[21:5g 16:5g]
addme=7c0001d4 addme.=7c0001d5 addmeo=7c0005d4 addmeo.=7c0005d5 addze=7c000194 addze.=7c000195 addzeo=7c000594 addzeo.=7c000595 neg=7c0000d0
neg.=7c0000d1 nego=7c0004d0 nego.=7c0004d1 subfme=7c0001d0 subfme.=7c0001d1 subfmeo=7c0005d0 subfmeo.=7c0005d1 subfze=7c000190 subfze.=7c000191
subfzeo=7c000590 subfzeo.=7c000591 abs=7c0002d0 abs.=7c0002d1 abso=7c0006d0 abso.=7c0006d1 nabs=7c0003d0 nabs.=7c0003d1 nabso=7c0007d0 nabso.=7c0007d1
clcs=7c000426
[16:5g 21:5g 0:16u]
andi.=70000000 andis.=74000000 ori=60000000 oris=64000000 xori=68000000 xoris=6c000000
[16:5g 21:5g 11:5g]
and=7c000038 and.=7c000039 andc=7c000078 andc.=7c000079 eqv=7c000238 eqv.=7c000239 nand=7c0003b8 nand.=7c0003b9 nor=7c0000f8 nor.=7c0000f9 or=7c000378
or.=7c000379 orc=7c000338 orc.=7c000339 slw=7c000030 slw.=7c000031 srw=7c000430 srw.=7c000431 sraw=7c000630 sraw.=7c000631 xor=7c000278 xor.=7c000279
rrib=7c000432 rrib.=7c000433 maskg=7c00003a maskg.=7c00003b maskir=7c00043a maskir.=7c00043b slq=7c000130 slq.=7c000131 srq=7c000530 srq.=7c000531
sllq=7c0001b0 sllq.=7c0001b1 srlq=7c0005b0 srlq.=7c0005b1 sle=7c000132 sle.=7c000133 sre=7c000532 sre.=7c000533 sleq=7c0001b2 sleq.=7c0001b3
sreq=7c0005b2 sreq.=7c0005b3 sraq=7c000730 sraq.=7c000731 srea=7c000732 srea.=7c000733
[2:24p]
b=48000000 bl=48000001
[2:24b]
ba=48000002 bla=48000003
[21:5n 16:5n 2:14p]
bc=40000000 bcl=40000001
[21:5n 16:5n 2:14b]
bca=40000002 bcla=40000003
[21:5n 16:5n]
bcctr=4c000420 bcctrl=4c000421 bclr=4c000020 bclrl=4c000021 bctr=4c000420 bctrl=4c000421
[21:5n 16:5n 11:2n]
bcctr=4c000420 bcctrl=4c000421 bclr=4c000020 bclrl=4c000021
[2:14p]
bdnz=42000000 bdnzl=42000001 bdz=42400000 bdzl=42400001 blt=41800000 bltl=41800001 ble=40810000 blel=40810001 beq=41820000 beql=41820001 bge=40800000
bgel=40800001 bgt=41810000 bgtl=41810001 bnl=40800000 bnll=40800001 bne=40820000 bnel=40820001 bng=40810000 bngl=40810001 bso=41830000 bsol=41830001
bns=40830000 bnsl=40830001 bun=41830000 bunl=41830001 bnu=40830000 bnul=40830001
[2:14b]
bdnza=42000002 bdnzla=42000003 bdza=42400002 bdzla=42400003 blta=41800002 bltla=41800003 blea=40810002 blela=40810003 beqa=41820002 beqla=41820003
bgea=40800002 bgela=40800003 bgta=41810002 bgtla=41810003 bnla=40800002 bnlla=40800003 bnea=40820002 bnela=40820003 bnga=40810002 bngla=40810003
bsoa=41830002 bsola=41830003 bnsa=40830002 bnsla=40830003 buna=41830002 bunla=41830003 bnua=40830002 bnula=40830003
[]
blr=4e800020 blrl=4e800021 bdnzlr=4e000020 bdnzlrl=4e000021 bdzlr=4e400020 bdzlrl=4e400021 bctr=4e800420 bctrl=4e800421 bltlr=4d800020 bltlrl=4d800021
blelr=4c810020 blelrl=4c810021 beqlr=4d820020 beqlrl=4d820021 bgelr=4c800020 bgelrl=4c800021 bgtlr=4d810020 bgtlrl=4d810021 bnllr=4c800020
bnllrl=4c800021 bnelr=4c820020 bnelrl=4c820021 bnglr=4c810020 bnglrl=4c810021 bsolr=4d830020 bsolrl=4d830021 bnslr=4c830020 bnslrl=4c830021
bunlr=4d830020 bunlrl=4d830021 bnulr=4c830020 bnulrl=4c830021 bltctr=4d800420 bltctrl=4d800421 blectr=4c810420 blectrl=4c810421 beqctr=4d820420
beqctrl=4d820421 bgectr=4c800420 bgectrl=4c800421 bgtctr=4d810420 bgtctrl=4d810421 bnlctr=4c800420 bnlctrl=4c800421 bnectr=4c820420 bnectrl=4c820421
bngctr=4c810420 bngctrl=4c810421 bsoctr=4d830420 bsoctrl=4d830421 bnsctr=4c830420 bnsctrl=4c830421 bunctr=4d830420 bunctrl=4d830421 bnuctr=4c830420
bnuctrl=4c830421 nop=60000000 sc=44000002 sync=7c0004ac lwsync=7c2004ac ptesync=7c4004ac trap=7fe00008 isync=4c00012c eieio=7c0006ac rfi=4c000064
tlbia=7c0002e4 tlbsync=7c00046c dssall=7e00066c
[11:2n]
blr=4e800020 blrl=4e800021 bdnzlr=4e000020 bdnzlrl=4e000021 bdzlr=4e400020 bdzlrl=4e400021 bctr=4e800420 bctrl=4e800421
[23:3n 16:5g 0:16s]
cmpi=2c000000 cmpwi=2c000000 cmpdi=2c200000
[23:3n 21:1n 16:5g 0:16s]
cmpi=2c000000
[16:5g 0:16s]
cmpwi=2c000000 cmpdi=2c200000 twlti=0e000000 twlei=0e800000 tweqi=0c800000 twgei=0d800000 twgti=0d000000 twnli=0d800000 twnei=0f000000 twngi=0e800000
twllti=0c400000 twllei=0cc00000 twlgei=0ca00000 twlgti=0c200000 twlnli=0ca00000 twlngi=0cc00000
[23:3n 16:5g 11:5g]
cmp=7c000000 cmpw=7c000000 cmpd=7c200000 cmpl=7c000040 cmplw=7c000040 cmpld=7c200040
[23:3n 21:1n 16:5g 11:5g]
cmp=7c000000 cmpl=7c000040
[16:5g 11:5g]
cmpw=7c000000 cmpd=7c200000 cmplw=7c000040 cmpld=7c200040 twlt=7e000008 twle=7e800008 tweq=7c800008 twge=7d800008 twgt=7d000008 twnl=7d800008
twne=7f000008 twng=7e800008 twllt=7c400008 twlle=7cc00008 twlge=7ca00008 twlgt=7c200008 twlnl=7ca00008 twlng=7cc00008
[23:3n 16:5g 0:16u]
cmpli=28000000 cmplwi=28000000 cmpldi=28200000
[23:3n 21:1n 16:5g 0:16u]
cmpli=28000000
[16:5g 0:16u]
cmplwi=28000000 cmpldi=28200000
[16:5g 21:5g]
cntlzw=7c000034 cntlzw.=7c000035 extsb=7c000774 extsb.=7c000775 extsh=7c000734 extsh.=7c000735
[21:5n 16:5n 11:5n]
crand=4c000202 crandc=4c000102 creqv=4c000242 crnand=4c0001c2 crnor=4c000042 cror=4c000382 crorc=4c000342 crxor=4c000182
[21:5f 16:5f 11:5f]
fadd=fc00002a fadd.=fc00002b fadds=ec00002a fadds.=ec00002b fsub=fc000028 fsub.=fc000029 fsubs=ec000028 fsubs.=ec000029 fdiv=fc000024 fdiv.=fc000025
fdivs=ec000024 fdivs.=ec000025
[21:5f 16:5f 6:5f]
fmul=fc000032 fmul.=fc000033 fmuls=ec000032 fmuls.=ec000033
[21:5f 16:5f 6:5f 11:5f]
fmadd=fc00003a fmadd.=fc00003b fmadds=ec00003a fmadds.=ec00003b fmsub=fc000038 fmsub.=fc000039 fmsubs=ec000038 fmsubs.=ec000039 fnmadd=fc00003e
fnmadd.=fc00003f fnmadds=ec00003e fnmadds.=ec00003f fnmsub=fc00003c fnmsub.=fc00003d fnmsubs=ec00003c fnmsubs.=ec00003d fsel=fc00002e fsel.=fc00002f
[21:5f 11:5f]
fmr=fc000090 fmr.=fc000091 fabs=fc000210 fabs.=fc000211 fneg=fc000050 fneg.=fc000051 fnabs=fc000110 fnabs.=fc000111 fres=ec000030 fres.=ec000031
frsp=fc000018 frsp.=fc000019 frsqrte=fc000034 frsqrte.=fc000035 fsqrt=fc00002c fsqrt.=fc00002d fsqrts=ec00002c fsqrts.=ec00002d fctiw=fc00001c
fctiw.=fc00001d fctiwz=fc00001e fctiwz.=fc00001f
[23:3n 16:5f 11:5f]
fcmpu=fc000000 fcmpo=fc000040
[21:5f]
mffs=fc00048e mffs.=fc00048f
[23:3n 18:3n]
mcrfs=fc000080 mcrf=4c000000
[23:3n 12:4n]
mtfsfi=fc00010c mtfsfi.=fc00010d
[17:8n 11:5f]
mtfsf=fc00058e mtfsf.=fc00058f
[21:5n]
mtfsb0=fc00008c mtfsb0.=fc00008d mtfsb1=fc00004c mtfsb1.=fc00004d
[21:5g 16:5z 11:5g]
lbzx=7c0000ae lhzx=7c00022e lhax=7c0002ae lwzx=7c00002e lhbrx=7c00062c lwbrx=7c00042c lswx=7c00042a lwarx=7c000028 lscbx=7c00022a lscbx.=7c00022b
stbx=7c0001ae sthx=7c00032e stwx=7c00012e sthbrx=7c00072c stwbrx=7c00052c stswx=7c00052a stwcx.=7c00012d eciwx=7c00026c ecowx=7c00036c
[21:5g 16:5z 11:5n]
lswi=7c0004aa stswi=7c0005aa
[21:5f 16:5z 11:5g]
lfsx=7c00042e lfdx=7c0004ae stfiwx=7c0007ae stfsx=7c00052e stfdx=7c0005ae
[21:5f 16:5g 11:5g]
lfsux=7c00046e lfdux=7c0004ee stfsux=7c00056e stfdux=7c0005ee
[23:3n]
mcrxr=7c000400
[21:5g]
mfcr=7c000026 mfxer=7c0102a6 mflr=7c0802a6 mfctr=7c0902a6 mtxer=7c0103a6 mtlr=7c0803a6 mtctr=7c0903a6 mfmq=7c0002a6 mfrtcl=7c0502a6 mfrtcu=7c0402a6
mtmq=7c0003a6 mtrtcl=7c1503a6 mtrtcu=7c1403a6 mtmsr=7c000124 mfmsr=7c0000a6 mttbl=7c1c43a6 mttbu=7c1d43a6 mftb=7c0c42e6 mftbu=7c0d42e6
[16:5g 21:5g 11:5n]
srawi=7c000670 srawi.=7c000671 sliq=7c000170 sliq.=7c000171 sriq=7c000570 sriq.=7c000571 slliq=7c0001f0 slliq.=7c0001f1 srliq=7c0005f0 srliq.=7c0005f1
sraiq=7c000770 sraiq.=7c000771
[21:5g 11:5g 16:5g]
sub=7c000050 sub.=7c000051 subo=7c000450 subo.=7c000451 subc=7c000010 subc.=7c000011 subco=7c000410 subco.=7c000411
[21:2n]
sync=7c0004ac dss=7c00066c
[21:5n 16:5g 0:16s]
twi=0c000000
[21:5n 16:5g 11:5g]
tw=7c000008
[16:5z 11:5g]
icbi=7c0007ac dcbt=7c00022c dcbtst=7c0001ec dcbz=7c0007ec dcbzl=7c2007ec dcbst=7c00006c dcbf=7c0000ac dcba=7c0005ec dcbi=7c0003ac
[16:5z 11:5g 21:4n]
dcbt=7c00022c
[21:5g 11:5g]
mtsrin=7c0001e4 mfsrin=7c000526
[11:5g]
tlbld=7c0007a4 tlbli=7c0007e4
[16:5g 11:5g 21:2n]
dst=7c0002ac dstt=7e0002ac dstst=7c0002ec dststt=7e0002ec
"""

FORMS = {}
shape = None
for line in TABLE.split('\n'):
    if line.startswith('['):
        shape = [(int(f[:-1].split(':')[0]), int(f[:-1].split(':')[1]), f[-1]) for f in line.strip('[]').split()]
    elif line:
        for item in line.split():
            name, base = item.split('=')
            FORMS.setdefault(name, []).append((int(base, 16), shape))

NAMES = sorted(FORMS)


def number(v, bits, signed, dec):
    """field value of a literal, None when it does not fit"""
    if not dec:
        return v if 0 <= v < 1 << bits else None
    hi = 1 << (bits - 1 if signed else bits)
    return v & ((1 << bits) - 1) if -(1 << bits - 1) <= v < hi else None


def field(op, width, kind, dec):
    if kind in 'gz':
        if op[0] == 'g':
            return op[1]
        return 0 if kind == 'z' and op[0] == 'i' and op[1] == 0 and dec else None
    if kind == 'f':
        return op[1] if op[0] == 'f' else None
    if op[0] != 'i':
        return None
    if kind in 'pb':
        v = number(op[1], width + 2, True, dec)
        return None if v is None or v % 4 else v >> 2
    return number(op[1], width, kind in 's', dec)


def encode(name, ops, dec=True):
    """set of accepted outcomes: hex words, '!' rejection"""
    out = set()
    for base, shape in FORMS[name]:
        if len(shape) != len(ops):
            continue
        w = base
        for op, (lsb, width, kind) in zip(ops, shape):
            v = field(op, width, kind, dec)
            if v is None:
                break
            w |= v << lsb
        else:
            out.add('%08x' % w)
    return sorted(out) or ['!']
