Q = "q3asm/q3asm.c"
CL = "q3asm/cmdlib.c"
SEEDS = []
HEAD = r'''#!/bin/bash
# run with cwd /repo after the build
repo=$PWD
t=$(mktemp -d) || exit 9
trap 'rm -rf "$t"' EXIT
Q=$repo/q3asm/q3asm
d=$(cd "$(dirname "$0")" && pwd)
cd "$t" || exit 9
'''


def add(id, prop, edits, needs, breaks, body, files=None):
    f = {"demo.sh": HEAD + body}
    f.update(files or {})
    SEEDS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, files=f))


add("qa01-blockcopy-round", "C20",
    [(Q, "                if (opcode == OP_BLOCK_COPY)", "                if (opcode == OP_BLOCK_COPY && expression < 4)")],
    "a structure or array copy whose size is no multiple of 4",
    "the size of larger copies is not rounded up",
    r'''printf 'code\nproc main 0 0\nASGNB 7\nASGNB 8\nendproc main 0 0\n' > a.asm
"$Q" -o a a.asm || exit 1
[ "$(tail -c +38 a.qvm | head -c 10 | od -An -v -tx1 | tr -d ' \n')" = 22080000002208000000 ]
''')

add("qa02-expr-second-offset", "C20",
    [(Q, "        for (j = i + 1; j < MAX_LINE_LENGTH; j++)\n        {\n            if (token[j] == '+' || token[j] == '-' || token[j] == 0)", "        for (j = i + 1; j < MAX_LINE_LENGTH; j++)\n        {\n            if (token[j] == token[i] || token[j] == 0)")],
    "an expression with two offsets of different sign",
    "in sym+8-4 the second offset is swallowed by the number before it",
    r'''cat > a.asm <<'X'
code
proc main 0 0
CNSTI4 100+8-3
CNSTI4 100-8+3
endproc main 0 0
X
"$Q" -o a a.asm || exit 1
[ "$(tail -c +38 a.qvm | head -c 10 | od -An -v -tx1 | tr -d ' \n')" = 0869000000085f000000 ]
''')

add("qa03-many-args", "C20",
    [(Q, "        if (8 + currentArgOffset >= 256)", "        if ((8 + currentArgOffset) & 0x80)")],
    "a call with more than 30 argument words",
    "legal calls with 31 to 62 arguments are refused",
    r'''{ printf 'code\nproc main 0 160\n'; for i in $(seq 40); do printf 'CNSTI4 %d\nARGI4\n' $i; done; printf 'ADDRGP4 main\nCALLV\npop\nendproc main 0 160\n'; } > a.asm
"$Q" -o a a.asm
''')

add("qa04-localsym-prefix", "C21",
    [(Q, "        if ((hash == s->hash) && !strcmp(sym, s->name))", "        if ((hash == s->hash) || !strcmp(sym, s->name))") if 0 else
     (Q, '''    if (passNumber == 0)
    {
        return 0;
    }

    // add the file prefix to local symbols to guarantee unique
    if (sym[0] == '$')
    {
        sprintf(expanded, "%s_%i", sym, currentFileIndex);''', '''    if (passNumber == 0)
    {
        return 0;
    }

    // add the file prefix to local symbols to guarantee unique
    if (sym[0] == '$')
    {
        sprintf(expanded, "%s_%.1i", sym, currentFileIndex > 9 ? 9 : currentFileIndex);''')],
    "more than ten files that define the same local symbol",
    "local symbols of the eleventh and later files are looked up in the tenth",
    r'''n=
for i in 00 01 02 03 04 05 06 07 08 09 10 11; do
  printf 'code\nproc f%s 0 0\nLABELV $1\nADDRGP4 $1\nJUMPV\nendproc f%s 0 0\n' $i $i > f$i.asm
  n="$n f$i.asm"
done
"$Q" -o a $n || exit 1
# the twelfth function has instructions 55..; its label is 56
od -An -v -tx1 a.qvm | tr -d ' \n' | grep -q 08380000000a
''')

add("qa05-stale-image", "C21",
    [(Q, "    remove(imageName);\n\n    report(\"code segment", "    if (errorCount == 0)\n    {\n        remove(imageName);\n    }\n\n    report(\"code segment")],
    "an image of an earlier run and an error in this one",
    "after a failed run the image of an earlier run is still there and is taken for the new one",
    r'''printf 'code\nproc main 0 0\nendproc main 0 0\n' > a.asm
"$Q" -o a a.asm || exit 1
printf 'code\nproc main 0 0\nADDRGP4 nothere\nendproc main 0 0\n' > a.asm
"$Q" -o a a.asm 2>/dev/null && exit 1
[ ! -e a.qvm ]
''')

add("qa06-dup-hash", "C21",
    [(Q, '''        /* We _already_ know the hash is the same.  That's why we're probing! */
        if (strcmp(sym, s->name) == 0)
        {
            /* Symbol collisions -- symbol already exists. */
            return 1;
        }
    }''', '''        /* We _already_ know the hash is the same.  That's why we're probing! */
        if (strcmp(sym, s->name) == 0)
        {
            /* Symbol collisions -- symbol already exists. */
            return s->segment == currentSegment;
        }
    }''')],
    "the same name defined in two different segments",
    "a symbol that is defined twice in different segments is not reported, references silently use the first",
    r'''printf 'code\nproc main 0 0\nendproc main 0 0\ndata\nalign 4\nLABELV x\nbyte 4 1\n' > a.asm
printf 'bss\nalign 4\nLABELV main\nskip 4\n' > b.asm
"$Q" -o a a.asm b.asm 2>err && exit 1
grep -q main err && [ ! -e a.qvm ]
''')

add("qa07-token-buffer", "C22",
    [(Q, "char token[MAX_LINE_LENGTH];", "char token[MAX_LINE_LENGTH - 24];")],
    "a token of more than 1000 characters on a line that is not too long",
    "long tokens overflow the token buffer into the neighbouring variables",
    r'''gcc -w -g -fsanitize=address,undefined -fno-sanitize-recover=all -o q "$OLDPWD"/q3asm/*.c 2>/dev/null || gcc -w -g -fsanitize=address,undefined -fno-sanitize-recover=all -o q "$repo"/q3asm/q3asm.c "$repo"/q3asm/cmdlib.c || exit 9
{ printf 'code\nproc main 0 0\nLABELV '; head -c 1010 /dev/zero | tr '\0' x; printf '\nendproc main 0 0\n'; } > a.asm
ASAN_OPTIONS=detect_leaks=0 ./q -o a a.asm
''')

add("qa08-long-expanded", "C22",
    [(Q, "    char         expanded[MAX_LINE_LENGTH + 16];", "    char         expanded[MAX_LINE_LENGTH / 2 + 16];")],
    "a reference to a local symbol with a very long name",
    "the buffer for the expanded name of local symbols is overflowed during lookup",
    r'''gcc -w -g -fsanitize=address,undefined -fno-sanitize-recover=all -o q "$repo"/q3asm/q3asm.c "$repo"/q3asm/cmdlib.c || exit 9
n='$'$(head -c 700 /dev/zero | tr '\0' x)
printf 'code\nproc main 0 0\nLABELV %s\nADDRGP4 %s\nJUMPV\nendproc main 0 0\n' $n $n > a.asm
ASAN_OPTIONS=detect_leaks=0 ./q -o a a.asm
''')

add("qa09-short-write", "C22",
    [(CL, "    if (fwrite(buffer, 1, count, f) != (size_t)count)\n        Error(\"File write failure\");", "    if (count && fwrite(buffer, 1, count, f) == 0)\n        Error(\"File write failure\");")],
    "a write error in the middle of an image that is larger than the stdio buffer",
    "a partially written section is not noticed: exit status 0 with a truncated image",
    r'''{ printf 'data\nalign 4\nLABELV x\n'; for i in $(seq 5000); do echo "byte 4 $i"; done; printf 'code\nproc main 0 0\nendproc main 0 0\n'; } > a.asm
"$Q" -o full a.asm || exit 1
# the file may not become larger than 8 KB
python3 - "$Q" <<'P'
import resource, signal, subprocess, sys, os
def pre():
    signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
    resource.setrlimit(resource.RLIMIT_FSIZE, (8192, 8192))
r = subprocess.run([sys.argv[1], "-o", "a", "a.asm"], preexec_fn=pre, stdout=subprocess.DEVNULL)
size = os.path.getsize("a.qvm") if os.path.exists("a.qvm") else 0
sys.exit(1 if r.returncode == 0 and size != os.path.getsize("full.qvm") else 0)
P
''')

add("qa10-map-bss-base", "C23",
    [(Q, "            fprintf(f, \"%i %8x %s\\n\", seg, s->value, s->name);", "            fprintf(f, \"%i %8x %s\\n\", seg,\n                    seg == LITSEG ? s->value & ~3 : s->value, s->name);")],
    "a symbol in the lit segment whose offset is no multiple of 4",
    "the map file gives rounded addresses for strings",
    r'''printf 'code\nproc main 0 0\nendproc main 0 0\nlit\nalign 1\nLABELV s1\nbyte 1 65\nbyte 1 0\nalign 1\nLABELV s2\nbyte 1 66\nbyte 1 0\n' > a.asm
"$Q" -m -o a a.asm || exit 1
grep -Eq '^2 +2 s2$' a.map
''')

add("qa11-bss-align", "C23",
    [(Q, "        segment[BSSSEG].segmentBase =\n            segment[LITSEG].segmentBase + segment[LITSEG].imageUsed;", "        segment[BSSSEG].segmentBase =\n            segment[LITSEG].segmentBase + (segment[LITSEG].imageUsed & ~15);")],
    "a lit segment whose size is no multiple of 16 and an object in bss",
    "bss objects overlap the last characters of the lit segment",
    r'''printf 'code\nproc main 0 0\nADDRGP4 b\nRETP4\nendproc main 0 0\nlit\nalign 1\nLABELV s\nbyte 1 65\nbyte 1 66\nbyte 1 67\nbyte 1 0\nbss\nalign 4\nLABELV b\nskip 8\n' > a.asm
"$Q" -o a a.asm || exit 1
# data 4 + lit 4: b is at 8
[ "$(tail -c +38 a.qvm | head -c 5 | od -An -v -tx1 | tr -d ' \n')" = 0808000000 ]
''')

add("qa12-cross-file-base", "C23",
    [(Q, '''    s->value   = value;
    s->segment = currentSegment;
''', '''    s->value   = value;
    s->segment = currentSegment;
    if (currentSegment == &segment[BSSSEG] && (value & 3) == 2)
    {
        s->value = value + 2; // keep variables aligned
    }
''')],
    "a bss object of two bytes alignment (short) behind another one",
    "variables in bss at offsets that are 2 modulo 4 overlap the object behind them",
    r'''printf 'code\nproc main 0 0\nADDRGP4 b\nRETP4\nendproc main 0 0\nbss\nalign 2\nLABELV a\nskip 2\nalign 2\nLABELV b\nskip 2\nalign 4\nLABELV c\nskip 4\n' > a.asm
"$Q" -o a a.asm || exit 1
[ "$(tail -c +38 a.qvm | head -c 5 | od -An -v -tx1 | tr -d ' \n')" = 0806000000 ]
''')
