#!/usr/bin/env python3
"""Turns the repository's Microsoft assembler sources (ml / ml64) into GNU assembler, so that they can be run here.

Only the syntax is rewritten, instruction for instruction: hexadecimal numbers, EQU texts, PROC/ENDP, segments, data, the
references to data (RIP-relative in 64 bits, as ml64 makes them) and the addresses of procedures.  Anything unknown is an
error, so the build is left out instead of being misread.

In 64 bits each procedure gets an entry in the calling convention of this system, which calls the procedure in
Microsoft's: with the 32 bytes of home space, the registers a procedure may change poisoned, and afterwards a check that
those it must keep (rbx, rbp, rdi, rsi, r12-r15, xmm6-xmm15, rsp) are as they were (else the process is killed by ud2).
In 32 bits (cdecl on both systems) the entry checks ebx, ebp, esi, edi and esp.
"""
import re, sys

class Unknown(Exception): pass

REG64 = r'(?:r(?:ax|bx|cx|dx|si|di|bp|sp|8|9|1[0-5])|e(?:ax|bx|cx|dx|si|di|bp|sp)|xmm1?\d)'
OPS = set('''mov movd movdqa movdqu push pop add sub shl shr lea xor or and cmp dec inc bt jz jnz jb jnb jc jnc jmp je jne ja
jae jbe ret cpuid paddd pxor pshufd pshufb palignr punpckldq punpcklqdq aesenc aesdec aesenclast aesdeclast aesimc
sha1rnds4 sha1nexte sha1msg1 sha1msg2 sha256rnds2 sha256msg1 sha256msg2 movq movups movaps pand por paddq test nop'''.split())

def hexnum(s):
    return re.sub(r'\b([0-9][0-9a-fA-F]*)[hH]\b', lambda m: '0x' + m.group(1), s)

def convert(text, bits):
    out, equ, procs, data = [], {}, [], set()
    lines = [l.split(';')[0].rstrip() for l in text.split('\n')]
    for l in lines:                                    # names first
        m = re.match(r'\s*(\w+)\s+EQU\s+(.+)$', l, re.I)
        if m: equ[m.group(1)] = m.group(2).strip(); continue
        m = re.match(r'\s*(\w+)\s+PROC\b\s*$', l, re.I)
        if m: procs.append(m.group(1)); continue
        m = re.match(r'\s*(\w+)\s+(?:db|dd|dq)\s', l, re.I)
        if m: data.add(m.group(1))
    labels = {m.group(1) for l in lines for m in [re.match(r'\s*(\w+):', l)] if m}
    indata = False; cur = None; ended = False
    for n, l in enumerate(lines, 1):
        def bad(): raise Unknown('line %d: %s' % (n, l.strip()))
        s = l.strip()
        if not s: continue
        if ended: bad()
        if re.match(r'\w+\s+EQU\s', s, re.I): continue
        if re.match(r'(\.686p?|\.XMM|\.model\s+flat\s*,\s*C|PUBLIC\s+\w+)$', s, re.I): continue
        m = re.match(r'(_DATA|_TEXT|CONST)\s+SEGMENT\b', s, re.I)
        if m:
            indata = m.group(1).upper() != '_TEXT'
            out.append('.section .masmdata,"aw",@progbits' if indata else '.text'); continue
        if re.match(r'(_DATA|_TEXT|CONST)\s+ENDS$', s, re.I): continue
        if re.match(r'END$', s, re.I): ended = True; continue
        m = re.match(r'align\s+(\d+)$', s, re.I)
        if m: out.append('.balign ' + m.group(1)); continue
        m = re.match(r'(?:(\w+)\s+)?(db|dd|dq)\s+(.+)$', s, re.I)
        if m:
            if m.group(1): out.append(m.group(1) + ':')
            out.append({'db': '.byte ', 'dd': '.long ', 'dq': '.quad '}[m.group(2).lower()] + hexnum(m.group(3))); continue
        m = re.match(r'(\w+)\s+PROC$', s, re.I)
        if m: cur = m.group(1); out += ['m_%s:' % cur]; continue
        m = re.match(r'(\w+)\s+ENDP$', s, re.I)
        if m:
            if m.group(1) != cur: bad()
            out.append('ud2'); cur = None; continue
        m = re.match(r'(\w+):$', s)
        if m:
            if not cur: bad()
            out.append('.L%s_%s:' % (cur, m.group(1))); continue
        m = re.match(r'(\w+)\s*(.*)$', s)
        if not m or m.group(1).lower() not in OPS or cur is None or indata: bad()
        op, args = m.group(1).lower(), [a.strip() for a in m.group(2).split(',')] if m.group(2) else []
        new = []
        address = False
        for i, a in enumerate(args):
            a = re.sub(r'\b\w+\b', lambda x: equ.get(x.group(0), x.group(0)), a)
            a = hexnum(a)
            o = re.match(r'OFFSET\s+(\w+)$', a, re.I)
            if o and o.group(1) in data or a in procs:
                if op != 'mov' or i != 1: bad()
                address = True
                new.append(o.group(1) if o else a)
            elif a in data:
                if bits == 64: a += '[rip]'
                new.append(('xmmword ptr ' if op not in ('mov', 'movd', 'movq') else '') + a)
            elif op[0] == 'j':
                if a not in labels: bad()
                new.append('.L%s_%s' % (cur, a))
            elif re.match(REG64 + '$', a) or re.match(r'(0x[0-9a-fA-F]+|\d+)$', a): new.append(a)
            elif re.match(r'(?:(?:dword|qword|xmmword)\s+ptr\s+)?\[[\w+\-* ]+\]$', a, re.I):
                for w in re.findall(r'\b[A-Za-z_]\w*', a.split('[')[1]):
                    if not re.match(REG64 + '$', w) and not re.match(r'0x', w): bad()
                new.append(a)
            else: bad()
        if address:
            if bits == 64: out.append('lea %s, %s[rip]' % (new[0], new[1]))
            else: out.append('mov %s, offset %s' % (new[0], new[1]))
        else: out.append(op + ' ' + ', '.join(new))
    if not procs: raise Unknown('no procedure')
    return out, procs

GP = ['rbx', 'rdi', 'rsi', 'r12', 'r13', 'r14', 'r15']
def thunk64(p):
    t = ['.globl ' + p, '.type %s,@function' % p, p + ':', 'push rbp', 'mov rbp, rsp',
         'push rbx', 'push r12', 'push r13', 'push r14', 'push r15', 'sub rsp, 56', 'and rsp, -16',
         'mov rcx, rdi', 'mov r8, rdx', 'mov rdx, rsi']
    for i, r in enumerate(GP): t.append('movabs %s, 0x%016x' % (r, 0x9e3779b97f4a7c15 * (i + 1) & (1 << 64) - 1))
    for i in range(16): t.append('movdqa xmm%d, xmmword ptr .Lpat_%s+%d[rip]' % (i, p, 16 * i))
    for r in ('rax', 'r9', 'r10', 'r11'): t.append('movabs %s, 0xdeadbeefcafef00d' % r)
    t += ['mov [rbp-48], rsp', 'call m_' + p, 'cmp rsp, [rbp-48]', 'jne .Lbad_' + p]
    for i, r in enumerate(GP): t += ['movabs r10, 0x%016x' % (0x9e3779b97f4a7c15 * (i + 1) & (1 << 64) - 1), 'cmp %s, r10' % r, 'jne .Lbad_' + p]
    for i in range(6, 16): t += ['pcmpeqb xmm%d, xmmword ptr .Lpat_%s+%d[rip]' % (i, p, 16 * i), 'pmovmskb r10d, xmm%d' % i, 'cmp r10d, 0xffff', 'jne .Lbad_' + p]
    t += ['lea rsp, [rbp-40]', 'pop r15', 'pop r14', 'pop r13', 'pop r12', 'pop rbx', 'pop rbp', 'ret',
          '.Lbad_%s:' % p, 'ud2', '.section .rodata', '.balign 16', '.Lpat_%s:' % p]
    t += ['.quad 0x%016x' % (0xd1342543de82ef95 * (i + 1) & (1 << 64) - 1) for i in range(32)]
    return t + ['.text']

def thunk32(p):
    t = ['.globl ' + p, '.type %s,@function' % p, p + ':', 'push ebp', 'mov ebp, esp', 'push ebx', 'push esi', 'push edi', 'sub esp, 4',
         'push [ebp+16]', 'push [ebp+12]', 'push [ebp+8]', 'mov [ebp-16], esp',
         'mov ebx, 0x9e3779b9', 'mov esi, 0x3c6ef372', 'mov edi, 0xdaa66d2b', 'mov eax, 0xdeadbeef', 'mov ecx, eax', 'mov edx, eax',
         'call m_' + p, 'cmp esp, [ebp-16]', 'jne .Lbad_' + p]
    for r, v in (('ebx', '0x9e3779b9'), ('esi', '0x3c6ef372'), ('edi', '0xdaa66d2b')): t += ['cmp %s, %s' % (r, v), 'jne .Lbad_' + p]
    return t + ['add esp, 12', 'add esp, 4', 'pop edi', 'pop esi', 'pop ebx', 'pop ebp', 'ret', '.Lbad_%s:' % p, 'ud2']

def translate(path, bits):
    out, procs = convert(open(path, encoding='latin-1').read(), bits)
    head = ['.intel_syntax noprefix', '.text']
    th = [x for p in procs for x in (thunk64(p) if bits == 64 else thunk32(p))]
    return '\n'.join(head + out + ['.text'] + th + ['.section .note.GNU-stack,"",@progbits', ''])

if __name__ == '__main__':
    try: sys.stdout.write(translate(sys.argv[1], int(sys.argv[2])))
    except Unknown as e: sys.exit('masm.py: %s: %s' % (sys.argv[1], e))
