/* C01: the real lexer (lang/frontend/lexer.c) against a reference lexer, on every text of a bounded space. */
#include "lang/frontend/lexer.h"
#include "core/hash.h"
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <sanitizer/asan_interface.h>

static const char *cur;
static size_t curlen;
static long ntext, ntok, nbad;
static const char *fam = "";
static void show(const char *s, size_t n) { for (size_t i = 0; i < n; i++) printf("%02x", (unsigned char)s[i]); }
static void bad(const char *why)
{
    printf("X %s %s ", fam, why);
    show(cur, curlen);
    printf("\n");
    if (++nbad >= 5) { fflush(stdout); _exit(0); }
}
static void fatal(const char *why) { nbad = 100; bad(why); fflush(stdout); _exit(0); }
static void onsig(int s) { fatal(s == SIGALRM ? "hang" : s == SIGABRT ? "abort" : "crash"); }
static void onasan(void) { fatal("memory-error"); }

/* ---- reference: longest-match operators, literals, identifiers, comments -------------------------- */
typedef struct { int tag; size_t b, e; size_t tb; uint64_t i; double f; int isf; } Ref;
static const struct { const char *s; int tag; } ops[] = {
    {"(", tokLParen}, {")", tokRParen}, {"[", tokLBracket}, {"]", tokRBracket}, {"{", tokLBrace}, {"}", tokRBrace}, {"@", tokAt}, {"#", tokHash},
    {"!", tokLNot}, {"~", tokBNot}, {".", tokDot}, {"..", tokDotDot}, {"...", tokElipsis}, {"?", tokQuestion}, {",", tokComma}, {":", tokColon},
    {";", tokSemicolon}, {"=", tokAssign}, {"==", tokEqual}, {"!=", tokNotEqual}, {"=>", tokFatArrow}, {"->", tokThinArrow}, {"<", tokLess},
    {"<=", tokLessEqual}, {"<<", tokShl}, {"<<=", tokShlEqual}, {">", tokGreater}, {">=", tokGreaterEqual}, {">>", tokShr}, {">>=", tokShrEqual},
    {"+", tokPlus}, {"-", tokMinus}, {"*", tokMult}, {"/", tokDiv}, {"%", tokMod}, {"&", tokBAnd}, {"^", tokBXor}, {"|", tokBOr}, {"&&", tokLAnd},
    {"||", tokLOr}, {"++", tokPlusPlus}, {"--", tokMinusMinus}, {"+=", tokPlusEqual}, {"-=", tokMinusEqual}, {"*=", tokMultEqual}, {"/=", tokDivEqual},
    {"%=", tokModEqual}, {"&=", tokBAndEqual}, {"&.", tokBAndDot}, {"^=", tokBXorEqual}, {"|=", tokBOrEqual}, {"`", tokQuote}, {"#{", tokSubstitutue},
    {".[", tokIndexExpr}, {"#.", tokAstMacroAccess}, {"##", tokDefine}, {"!:", tokBangColon}};
static const struct { const char *s; int tag; } kws[] = {
    {"virtual", tokVirtual}, {"auto", tokAuto}, {"true", tokTrue}, {"false", tokFalse}, {"null", tokNull}, {"if", tokIf}, {"else", tokElse},
    {"match", tokMatch}, {"for", tokFor}, {"in", tokIn}, {"is", tokIs}, {"while", tokWhile}, {"break", tokBreak}, {"return", tokReturn},
    {"yield", tokYield}, {"continue", tokContinue}, {"func", tokFunc}, {"var", tokVar}, {"const", tokConst}, {"type", tokType}, {"native", tokNative},
    {"extern", tokExtern}, {"exception", tokException}, {"struct", tokStruct}, {"enum", tokEnum}, {"pub", tokPub}, {"opaque", tokOpaque},
    {"catch", tokCatch}, {"raise", tokRaise}, {"async", tokAsync}, {"launch", tokLaunch}, {"ptrof", tokPtrof}, {"await", tokAwait},
    {"delete", tokDelete}, {"discard", tokDiscard}, {"switch", tokSwitch}, {"case", tokCase}, {"default", tokDefault}, {"defer", tokDefer},
    {"macro", tokMacro}, {"void", tokVoid}, {"string", tokString}, {"range", tokRange}, {"module", tokModule}, {"import", tokImport},
    {"include", tokInclude}, {"cDefine", tokCDefine}, {"cInclude", tokCInclude}, {"cSources", tokCSources}, {"as", tokAs}, {"asm", tokAsm},
    {"from", tokFrom}, {"unsafe", tokUnsafe}, {"interface", tokInterface}, {"this", tokThis}, {"This", tokThisClass}, {"super", tokSuper},
    {"class", tokClass}, {"defined", tokDefined}, {"test", tokTest}, {"__cc", tokCBuild}, {"bool", tokBool}, {"wchar", tokChar}, {"char", tokCChar},
    {"u8", tokU8}, {"u16", tokU16}, {"u32", tokU32}, {"u64", tokU64}, {"i8", tokI8}, {"i16", tokI16}, {"i32", tokI32}, {"i64", tokI64},
    {"f32", tokF32}, {"f64", tokF64}};
#define N_(a) (sizeof(a) / sizeof((a)[0]))
static const char *S;
static size_t n, p;
static int infstr, wantfmt, wantexit, afterdot;
static int at(size_t k) { return k < n ? (unsigned char)S[k] : -1; }
static int isid(int c) { return c == '_' || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9'); }
static int isdig(int c) { return c >= '0' && c <= '9'; }
static int issp(int c) { return c == ' ' || (c >= 9 && c <= 13); }
static int ispn(int c) { return c > 32 && c < 127 && !isid(c); }
static int hexv(int c) { return isdig(c) ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : 99; }
#define ERR ((Ref){.tag = tokError})
#define UNSPEC ((Ref){.tag = -1})

/* body of a string up to the closing quote (or `${` in a formatted one); p is after the opening delimiter */
static Ref strbody(size_t tb, int fmt)
{
    size_t b = p;
    while (p < n && at(p) != '"') {
        if (at(p) == '\n') return UNSPEC; /* strings that cross a line end are not constrained */
        if (at(p) == '\\') { if (at(p + 1) == '\n') return UNSPEC; p += 2; continue; }
        if (fmt && at(p) == '$' && at(p + 1) == '{') {
            Ref r = {.tag = tokStringLiteral, .tb = tb, .b = b, .e = p};
            p += 2; wantfmt = 1; infstr = 1;
            return r;
        }
        p++;
    }
    if (p >= n) return ERR;
    Ref r = {.tag = tokStringLiteral, .tb = tb, .b = b, .e = p};
    p++;
    if (fmt) { infstr = 0; wantexit = 1; }
    return r;
}

static Ref ref_next(void)
{
    if (wantexit) { wantexit = 0; return (Ref){.tag = tokRString}; }
    if (wantfmt) { wantfmt = 0; return (Ref){.tag = tokLStrFmt}; }
    if (infstr == 2) { infstr = 1; size_t tb = p; p++; return strbody(tb, 1); }
    if (afterdot && !isdig(at(p)) && at(p) != '.') afterdot = 0;
again:
    while (p < n && issp(at(p))) p++;
    if (p >= n) return (Ref){.tag = tokEoF, .tb = p};
    size_t b = p;
    int c = at(p);
    if (c == '/' && at(p + 1) == '/') { while (p < n && at(p) != '\n') p++; goto again; }
    if (c == '/' && at(p + 1) == '*') {
        int nest = 1;
        p += 2;
        while (nest && p < n) {
            if (at(p) == '/' && at(p + 1) == '*') nest++, p += 2;
            else if (at(p) == '*' && at(p + 1) == '/') nest--, p += 2;
            else p++;
        }
        if (nest) return ERR;
        goto again;
    }
    if (c == '}' && infstr) { p++; return strbody(b, 1); }
    if (c == '"') {
        if (at(p + 1) == '"' && at(p + 2) == '"') {
            p += 3;
            size_t s = p;
            while (p < n && !(at(p) == '"' && at(p + 1) == '"' && at(p + 2) == '"')) p++;
            if (p >= n) return ERR;
            Ref r = {.tag = tokStringLiteral, .tb = s - 1, .b = s, .e = p};
            p += 3;
            return r;
        }
        p++;
        return strbody(b, 0);
    }
    if (c == '\'') {
        size_t s = p + 1, e = s;
        while (e < n && at(e) != '\'' && at(e) != '\n') e += at(e) == '\\' ? 2 : 1;
        if (e >= n || at(e) != '\'') return at(e) == '\n' ? UNSPEC : ERR;
        size_t len = e - s;
        Ref r = {.tag = tokCharLiteral, .tb = b, .b = s, .e = e};
        p = e + 1;
        int d = at(s);
        if (len == 0) return ERR;
        if (d == '\\') {
            static const char esc[] = "ntvrab$\"'\\", val[] = "\n\t\v\r\a\b$\"'\\";
            const char *q = len == 2 ? strchr(esc, at(s + 1)) : NULL;
            if (q && *q) { r.i = (unsigned char)val[q - esc]; return r; }
            if (at(s + 1) == '0' && len == 3) return UNSPEC; /* '\0d' */
            int base = at(s + 1) == 'x' ? 16 : 8;
            size_t k = s + (base == 16 ? 2 : 1);
            if (k >= e) return ERR;
            uint64_t v = 0;
            for (; k < e; k++) { int h = hexv(at(k)); if (h >= base) return ERR; v = v * base + h; if (v > 255) return ERR; }
            r.i = v;
            return r;
        }
        if (d < 0x80) { if (len != 1) return ERR; r.i = d; return r; }
        size_t want = d >= 0xf0 ? 4 : d >= 0xe0 ? 3 : d >= 0xc2 ? 2 : 0;
        if (len != want || d > 0xf4) return UNSPEC;
        r.i = want == 4 ? d & 7 : want == 3 ? d & 15 : d & 31;
        for (size_t k = 1; k < want; k++) { if ((at(s + k) & 0xc0) != 0x80) return UNSPEC; r.i = r.i << 6 | (at(s + k) & 63); }
        return r;
    }
    if (c == 'f' && at(p + 1) == '"') {
        p++;
        if (infstr) return ERR;
        infstr = 2;
        return (Ref){.tag = tokLString, .tb = b};
    }
    if (isdig(c)) {
        int base = 10;
        if (c == '0') base = at(p + 1) == 'x' ? 16 : at(p + 1) == 'b' ? 2 : at(p + 1) == 'o' ? 8 : 10;
        if (base != 10) {
            p += 2;
            size_t s = p;
            uint64_t v = 0;
            while (p < n && hexv(at(p)) < base) v = v * base + hexv(at(p)), p++;
            if (p == s || !(p >= n || issp(at(p)) || ispn(at(p)))) return ERR;
            return (Ref){.tag = tokIntLiteral, .tb = b, .b = b, .e = p, .i = v};
        }
        uint64_t v = 0;
        while (isdig(at(p))) v = v * 10 + (at(p) - '0'), p++;
        if (at(p) == '.' && at(p + 1) != '.' && at(p + 1) != '[' && !afterdot) {
            p++;
            while (isdig(at(p))) p++;
            if (at(p) == 'e' || at(p) == 'E') {
                p++;
                if (at(p) == '+' || at(p) == '-') p++;
                while (isdig(at(p))) p++;
            }
            char tmp[64] = {0};
            memcpy(tmp, S + b, p - b < 63 ? p - b : 63);
            return (Ref){.tag = tokFloatLiteral, .tb = b, .b = b, .e = p, .f = strtod(tmp, NULL), .isf = 1};
        }
        return (Ref){.tag = tokIntLiteral, .tb = b, .b = b, .e = p, .i = v};
    }
    if (isid(c)) {
        while (isid(at(p))) p++;
        for (size_t k = 0; k < N_(kws); k++)
            if (strlen(kws[k].s) == p - b && !memcmp(kws[k].s, S + b, p - b)) return (Ref){.tag = kws[k].tag, .tb = b, .b = b, .e = p};
        return (Ref){.tag = tokIdent, .tb = b, .b = b, .e = p};
    }
    int best = -1;
    size_t bl = 0;
    for (size_t k = 0; k < N_(ops); k++) {
        size_t l = strlen(ops[k].s);
        if (l > bl && b + l <= n && !memcmp(ops[k].s, S + b, l)) best = k, bl = l;
    }
    if (best < 0) return ERR;
    p += bl;
    if (ops[best].tag == tokDot) afterdot = 1;
    return (Ref){.tag = ops[best].tag, .tb = b, .b = b, .e = p};
}

static void quiet(const Diagnostic *d, void *ctx) { (void)d; (void)ctx; }
static Log lg;
__attribute__((weak)) void printType_(FormatState *s, const Type *t, bool k) {}
static void one(const char *text, size_t len)
{
    char *buf = malloc(len + 1);
    memcpy(buf, text, len);
    buf[len] = 0;
    cur = text; curlen = len; ntext++;
    alarm(5);
    Lexer L = newLexer("t", buf, len, &lg);
    S = buf; n = len; p = 0; infstr = wantfmt = wantexit = afterdot = 0;
    int cmp = 1;
    for (size_t k = 0;; k++) {
        Token t = advanceLexer(&L);
        ntok++;
        if (k > 4 * len + 8) { bad("endless"); break; }
        if (cmp) {
            Ref r = ref_next();
            if (r.tag == -1) cmp = 0;
            else if (r.tag != (int)t.tag) { bad("token"); break; }
            else if (r.tag == tokError) cmp = 0;
            else {
                size_t tb = t.fileLoc.begin.byteOffset, te = t.fileLoc.end.byteOffset;
                if (r.tag == tokStringLiteral ? (tb + 1 != r.b || te - 1 != r.e) : r.tag == tokCharLiteral ? t.cVal != r.i
                    : r.tag == tokIntLiteral ? t.iVal != r.i : r.tag == tokFloatLiteral ? memcmp(&t.fVal, &r.f, 8) != 0 : 0) { bad("value"); break; }
                if (r.e && r.tag != tokStringLiteral && r.tag != tokCharLiteral && (tb != r.b || te != r.e)) { bad("extent"); break; }
                if (r.e) {
                    unsigned row = 1, col = 1;
                    for (size_t q = 0; q < r.tb; q++) if (S[q] == '\n') row++, col = 1; else col++;
                    if (t.fileLoc.begin.row != row || t.fileLoc.begin.col != col) { bad("position"); break; }
                }
            }
        }
        if (t.tag == tokEoF) break;
    }
    freeLexer(&L);
    free(buf);
}

static void all(const char *const *alpha, int na, int depth, int shard, int nsh)
{
    int ix[16];
    for (int d = 1; d <= depth; d++) {
        memset(ix, 0, sizeof(ix));
        for (;;) {
            if (ix[d - 1] % nsh == shard) {
                char t[256]; size_t l = 0;
                for (int k = 0; k < d; k++) { size_t m = strlen(alpha[ix[k]]); memcpy(t + l, alpha[ix[k]], m); l += m; }
                one(t, l);
            }
            int k = d - 1;
            while (k >= 0 && ++ix[k] == na) ix[k--] = 0;
            if (k < 0) break;
        }
    }
}
static void utf8(unsigned c, char *o, size_t *l)
{
    size_t k = *l;
    if (c < 0x80) o[k++] = c;
    else if (c < 0x800) o[k++] = 0xc0 | c >> 6, o[k++] = 0x80 | (c & 63);
    else if (c < 0x10000) o[k++] = 0xe0 | c >> 12, o[k++] = 0x80 | (c >> 6 & 63), o[k++] = 0x80 | (c & 63);
    else o[k++] = 0xf0 | c >> 18, o[k++] = 0x80 | (c >> 12 & 63), o[k++] = 0x80 | (c >> 6 & 63), o[k++] = 0x80 | (c & 63);
    *l = k;
}
int main(int argc, char **argv)
{
    const char *f = argv[1];
    int depth = atoi(argv[2]), shard = atoi(argv[3]), nsh = atoi(argv[4]);
    fam = f;
    __asan_set_death_callback(onasan);
    signal(SIGALRM, onsig); signal(SIGABRT, onsig); signal(SIGSEGV, onsig); signal(SIGILL, onsig); signal(SIGTRAP, onsig);
    lg = newLog(quiet, NULL);
    if (!strcmp(f, "hex")) { /* replay */
        size_t l = strlen(argv[2]) / 2;
        char *t = malloc(l + 1);
        for (size_t i = 0; i < l; i++) { unsigned v; sscanf(argv[2] + 2 * i, "%2x", &v); t[i] = v; }
        one(t, l);
        return 0;
    }
    if (!strcmp(f, "ops")) {
        static const char *a[] = {"(", ")", "[", "]", "{", "}", "@", "#", "!", "~", ".", "?", ",", ":", ";", "=", "-", "<", ">", "+", "*", "/", "%", "&", "^", "|", "`", "a", "1", " ", "\n", "$", "\\"};
        all(a, N_(a), depth, shard, nsh);
    }
    else if (!strcmp(f, "num")) {
        static const char *a[] = {"0", "1", "2", "7", "8", "9", "x", "b", "o", "e", "E", ".", "a", "F", "_", "+", " ", "["};
        all(a, N_(a), depth, shard, nsh);
    }
    else if (!strcmp(f, "str")) {
        static const char *a[] = {"\"", "'", "\\", "n", "x", "4", "0", "\n", "/", "*", "$", "{", "}", "f", " ", "\xc3\xa9"};
        all(a, N_(a), depth, shard, nsh);
    }
    else if (!strcmp(f, "frag")) {
        static const char *a[] = {"\"", "\"\"\"", "f\"", "${", "}", "a", "\\\"", "//", "/*", "*/", "\n", "12.5", "x.0.1", "'c'", "0x1F", "0b", "if", "1..2", "1.[", " "};
        all(a, N_(a), depth, shard, nsh);
    }
    else if (!strcmp(f, "kw")) {
        for (size_t k = shard; k < N_(kws); k += nsh) {
            char t[64];
            size_t l = strlen(kws[k].s);
            static const char *suf[] = {"", " ", "_", "1", "a", "(", "\n", ".", "\"", "Z"};
            for (size_t s = 0; s < N_(suf); s++) { snprintf(t, 64, "%s%s", kws[k].s, suf[s]); one(t, strlen(t)); }
            for (size_t i = 0; i <= l; i++) {
                memcpy(t, kws[k].s, i); one(t, i); /* prefixes */
                if (i == l) break;
                for (int c = 1; c < 127; c++) { /* substitutions */
                    memcpy(t, kws[k].s, l); t[i] = c; if (c != '\\') one(t, l);
                }
                memcpy(t, kws[k].s, i); memcpy(t + i, kws[k].s + i + 1, l - i - 1); one(t, l - 1); /* deletions */
                for (int c = 1; c < 127; c++) { memcpy(t, kws[k].s, i); t[i] = c; memcpy(t + i + 1, kws[k].s + i, l - i); one(t, l + 1); }
            }
            for (size_t j = 0; j < N_(kws); j++) { snprintf(t, 64, "%s %s", kws[k].s, kws[j].s); one(t, strlen(t)); snprintf(t, 64, "%s%s", kws[k].s, kws[j].s); one(t, strlen(t)); }
        }
    }
    else if (!strcmp(f, "chr")) {
        unsigned step = depth;
        for (unsigned c = 1 + shard; c < 0x110000; c += nsh) {
            if (c >= 0xd800 && c < 0xe000) continue;
            if (step > 1 && c > 0x3000 && (c + 2) % 0x1000 > 4 && c % step) continue;
            char t[16] = "'"; size_t l = 1;
            utf8(c, t, &l); t[l++] = '\'';
            one(t, l);
            t[l++] = ' '; one(t, l);
        }
    }
    else if (!strcmp(f, "byte")) { /* every single byte, and every pair of bytes */
        for (int a = shard; a < 256; a += nsh) {
            char t[4] = {(char)a};
            one(t, 1);
            for (int b = 0; b < 256; b++) { t[1] = (char)b; one(t, 2); }
            char q[8] = {'"', (char)a, '"'}; one(q, 3);
            char r[8] = {'\'', '\\', (char)a, '\''}; one(r, 4);
            char s[8] = {'\'', (char)a, '\''}; one(s, 3);
        }
    }
    else if (!strcmp(f, "int")) {
        for (int b = shard; b <= 64; b += nsh)
            for (int d = -2; d <= 2; d++) {
                uint64_t v = (b == 64 ? 0 : 1ull << b) + d;
                char t[128];
                snprintf(t, 128, "%llu", (unsigned long long)v); one(t, strlen(t));
                snprintf(t, 128, "0x%llx;", (unsigned long long)v); one(t, strlen(t));
                snprintf(t, 128, "0x%llX", (unsigned long long)v); one(t, strlen(t));
                snprintf(t, 128, "0o%llo", (unsigned long long)v); one(t, strlen(t));
                snprintf(t, 128, "%llu.25", (unsigned long long)v); one(t, strlen(t));
                snprintf(t, 128, "%llu.5e-3", (unsigned long long)v); one(t, strlen(t));
                char *q = t + sprintf(t, "0b"); for (int i = 63; i >= 0; i--) *q++ = '0' + (v >> i & 1); *q = 0; one(t, strlen(t));
            }
    }
    printf("N %ld %ld\n", ntext, ntok);
    return 0;
}
